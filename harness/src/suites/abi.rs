//! B01, B02: the ABI between the host and the templates.

use std::panic::{catch_unwind, AssertUnwindSafe};

use svm_abi_decoder::CallData;
use svm_abi_encoder::{ByteSize, Encoder};
use svm_sdk_types::value::Value;
use svm_sdk_types::{Address, Amount};

use crate::pbt::{fail, Ctx, R};
use crate::refabi::{self, encode_all, V};
use crate::runner::{Property, Suite};
use crate::suites::hex;
use crate::{check, check_eq};

fn aborts<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| crate::runner::take_last_panic().unwrap_or_default())
}

/// Everything that is left.
fn rest(data: &mut CallData) -> Vec<V> {
    let mut vs = vec![];
    loop {
        match data.next() {
            svm_sdk_std::Option::Some(v) => vs.push(V::of(&v)),
            svm_sdk_std::Option::None => return vs,
        }
    }
}

fn values_case(g: &mut Ctx) -> R {
    let n = g.below(9);
    let vs: Vec<V> = (0..n).map(|_| refabi::any(g)).collect();
    let documented = encode_all(&vs);
    g.mix(&documented);
    g.describe(format!("{:?}", vs));
    g.nontrivial = vs.len() > 1;
    g.label_if(vs.iter().any(|v| matches!(v, V::Arr(_))), "array");
    g.label_if(vs.iter().any(|v| matches!(v, V::Arr(a) if a.len() >= 8)), "array>=8");
    let bytes = match aborts(|| {
        let mut buf = svm_sdk_std::Vec::with_capacity(documented.len());
        vs.iter().for_each(|v| v.value().encode(&mut buf));
        buf.as_slice().to_vec()
    }) {
        Ok(b) => b,
        Err(e) => return fail("encode-abort", format!("encoding {:?} into {} bytes aborts: {}", vs, documented.len(), e)),
    };
    check!(bytes == documented, "format", "{:?} encoded as {} instead of {}", vs, hex(&bytes), hex(&documented));
    let back = match aborts(|| rest(&mut CallData::new(&bytes))) {
        Ok(b) => b,
        Err(e) => return fail("decode-abort", format!("decoding {} of {:?} aborts: {}", hex(&bytes), vs, e)),
    };
    check!(back == vs, "round-trip", "{:?} decodes as {:?}", vs, back);
    Ok(())
}

/// A Rust type of the ABI, and the value of the model it stands for.
trait Ty: Encoder + ByteSize + From<Value> + Clone {
    fn make(g: &mut Ctx) -> Self;
    fn model(&self) -> V;
}

macro_rules! ty {
    ($t:ty, $k:expr, $var:ident, $x:ident => $back:expr) => {
        impl Ty for $t {
            fn make(g: &mut Ctx) -> Self {
                match refabi::prim_of(g, $k) {
                    V::$var($x) => $back,
                    _ => unreachable!(),
                }
            }
            fn model(&self) -> V {
                V::$var(self.clone().into_model())
            }
        }
    };
}

trait IntoModel<M> {
    fn into_model(self) -> M;
}
macro_rules! same {
    ($($t:ty)*) => { $(impl IntoModel<$t> for $t { fn into_model(self) -> $t { self } })* };
}
same!(bool i8 u8 i16 u16 i32 u32 i64 u64);
impl IntoModel<u64> for Amount {
    fn into_model(self) -> u64 {
        self.0
    }
}
impl IntoModel<[u8; 20]> for Address {
    fn into_model(self) -> [u8; 20] {
        let mut a = [0; 20];
        a.copy_from_slice(self.as_slice());
        a
    }
}

ty!(bool, 0, Bool, x => x);
ty!(i8, 1, I8, x => x);
ty!(u8, 2, U8, x => x);
ty!(i16, 3, I16, x => x);
ty!(u16, 4, U16, x => x);
ty!(i32, 5, I32, x => x);
ty!(u32, 6, U32, x => x);
ty!(i64, 7, I64, x => x);
ty!(u64, 8, U64, x => x);
ty!(Amount, 9, Amount, x => Amount(x));
ty!(Address, 10, Addr, x => Address::from(x));

impl Ty for () {
    fn make(_: &mut Ctx) -> Self {}
    fn model(&self) -> V {
        V::Unit
    }
}

impl<T: Ty> Ty for svm_sdk_std::Option<T>
where
    svm_sdk_std::Option<T>: From<Value>,
{
    fn make(g: &mut Ctx) -> Self {
        if g.one_in(3) {
            svm_sdk_std::Option::None
        } else {
            svm_sdk_std::Option::Some(T::make(g))
        }
    }
    fn model(&self) -> V {
        match self {
            svm_sdk_std::Option::None => V::None,
            svm_sdk_std::Option::Some(x) => x.model(),
        }
    }
}

impl<T: Ty, const N: usize> Ty for [T; N]
where
    [T; N]: From<Value>,
{
    fn make(g: &mut Ctx) -> Self {
        [(); N].map(|_| T::make(g))
    }
    fn model(&self) -> V {
        V::Arr(self.iter().map(|x| x.model()).collect())
    }
}

/// `encode`, `byte_size` and `max_byte_size` of a typed value.
fn encoded<T: Encoder + ByteSize>(what: &str, x: &T, model: &[V]) -> Result<Vec<u8>, crate::pbt::Fail> {
    let documented = encode_all(model);
    let size = x.byte_size();
    check_eq!(size, documented.len(), "byte-size", "byte_size of the {} {:?}", what, model);
    check!(
        T::max_byte_size() >= size,
        "max-byte-size",
        "max_byte_size of {} is {}, but {:?} takes {}",
        what,
        T::max_byte_size(),
        model,
        size
    );
    let bytes = match aborts(|| {
        let mut buf = svm_sdk_std::Vec::with_capacity(size);
        x.encode(&mut buf);
        buf.as_slice().to_vec()
    }) {
        Ok(b) => b,
        Err(e) => return fail("encode-abort", format!("encoding the {} {:?} into byte_size() = {} bytes aborts: {}", what, model, size, e)),
    };
    check!(
        bytes == documented,
        "format",
        "the {} {:?} is encoded as {} instead of {}",
        what,
        model,
        hex(&bytes),
        hex(&documented)
    );
    Ok(bytes)
}

fn one<T: Ty>(g: &mut Ctx) -> R {
    let x = T::make(g);
    let model = x.model();
    let what = std::any::type_name::<T>();
    g.describe(format!("{} {:?}", what, model));
    g.nontrivial = !matches!(model, V::Bool(_) | V::Unit | V::None);
    let bytes = encoded(what, &x, &[model.clone()])?;
    let back = aborts(|| {
        let mut data = CallData::new(&bytes);
        let x: T = data.next_1();
        (x.model(), rest(&mut data))
    });
    check!(
        back == Ok((model.clone(), vec![])),
        "round-trip",
        "the {} {:?} decodes as {:?}",
        what,
        model,
        back
    );
    // ...and so does the value itself
    let conv = aborts(|| T::from(model.value()).model());
    check!(conv == Ok(model.clone()), "conversion", "the Value of the {} {:?} converts to {:?}", what, model, conv);
    // a single-element tuple adds nothing
    encoded(what, &(x,), &[model])?;
    Ok(())
}

macro_rules! arrays {
    ($g:expr, $t:ty) => {
        match $g.below(10) {
            0 => one::<[$t; 1]>($g),
            1 => one::<[$t; 2]>($g),
            2 => one::<[$t; 3]>($g),
            3 => one::<[$t; 4]>($g),
            4 => one::<[$t; 5]>($g),
            5 => one::<[$t; 6]>($g),
            6 => one::<[$t; 7]>($g),
            7 => one::<[$t; 8]>($g),
            8 => one::<[$t; 9]>($g),
            _ => one::<[$t; 10]>($g),
        }
    };
}

macro_rules! by_type {
    ($g:expr, $k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = bool; $e }
            1 => { type $t = i8; $e }
            2 => { type $t = u8; $e }
            3 => { type $t = i16; $e }
            4 => { type $t = u16; $e }
            5 => { type $t = i32; $e }
            6 => { type $t = u32; $e }
            7 => { type $t = i64; $e }
            8 => { type $t = u64; $e }
            9 => { type $t = Amount; $e }
            _ => { type $t = Address; $e }
        }
    };
}

fn typed_case(g: &mut Ctx) -> R {
    let k = g.below(11);
    match g.draw(8) {
        0..=2 => by_type!(g, k, T => one::<T>(g)),
        3 | 4 => by_type!(g, k, T => one::<svm_sdk_std::Option<T>>(g)),
        5 | 6 => by_type!(g, k, T => arrays!(g, T)),
        _ if g.one_in(4) => one::<()>(g),
        _ => {
            // an empty array: no type has it, but it can be encoded
            let bytes = encoded("empty array", &[0u8; 0], &[V::Arr(vec![])])?;
            let back = aborts(|| rest(&mut CallData::new(&bytes)));
            check_eq!(back, Ok(vec![V::Arr(vec![])]), "round-trip", "an empty array");
            Ok(())
        }
    }
}

macro_rules! tuple {
    ($g:expr, $next:ident, $($t:ident : $ty:ty),*) => {{
        $(let $t = <$ty as Ty>::make($g);)*
        let model = vec![$($t.model()),*];
        $g.describe(format!("{:?}", model));
        $g.mix(&encode_all(&model));
        $g.nontrivial = true;
        let what = concat!($(stringify!($ty), " "),*);
        let tuple = ($($t,)*);
        let mut bytes = encoded(what, &tuple, &model)?;
        let tail: Vec<V> = (0..$g.below(3)).map(|_| refabi::any($g)).collect();
        bytes.extend(encode_all(&tail));
        let back = aborts(|| {
            let mut data = CallData::new(&bytes);
            let ($($t,)*): ($($ty,)*) = data.$next();
            (vec![$($t.model()),*], rest(&mut data))
        });
        check!(
            back == Ok((model.clone(), tail.clone())),
            "tuple-round-trip",
            "{} of {:?} followed by {:?} gives {:?}",
            stringify!($next), model, tail, back
        );
        // one value short
        let short = encode_all(&model[..model.len() - 1]);
        let short = aborts(|| {
            let mut data = CallData::new(&short);
            let _: ($($ty,)*) = data.$next();
        });
        check!(short.is_err(), "missing-accepted", "{} of {:?} succeeds without the last value", stringify!($next), model);
        Ok(())
    }};
}

type O<T> = svm_sdk_std::Option<T>;

fn tuples_case(g: &mut Ctx) -> R {
    match g.draw(16) {
        0 => tuple!(g, next_2, a: u8, b: i64),
        1 => tuple!(g, next_2, a: Address, b: Amount),
        2 => tuple!(g, next_2, a: O<Amount>, b: [u16; 8]),
        3 => tuple!(g, next_2, a: [Address; 3], b: bool),
        4 => tuple!(g, next_3, a: u64, b: i8, c: Amount),
        5 => tuple!(g, next_3, a: O<u32>, b: O<Address>, c: i16),
        6 => tuple!(g, next_3, a: [i32; 10], b: bool, c: [Amount; 9]),
        7 => tuple!(g, next_4, a: i32, b: u32, c: i64, d: u64),
        8 => tuple!(g, next_4, a: Address, b: O<bool>, c: [i64; 2], d: u16),
        9 => tuple!(g, next_4, a: O<i8>, b: Amount, c: (), d: [bool; 7]),
        10 => tuple!(g, next_5, a: i8, b: u8, c: i16, d: u16, e: i32),
        11 => tuple!(g, next_5, a: Amount, b: Address, c: O<u64>, d: [u8; 4], e: bool),
        12 => tuple!(g, next_5, a: O<i16>, b: O<i32>, c: O<i64>, d: O<u8>, e: O<u16>),
        13 => tuple!(g, next_6, a: u32, b: i64, c: u64, d: Amount, e: Address, f: bool),
        14 => tuple!(g, next_6, a: bool, b: [u64; 5], c: O<Amount>, d: i16, e: [i8; 6], f: u8),
        _ => tuple!(g, next_6, a: Amount, b: Amount, c: i32, d: [Address; 1], e: O<Address>, f: i64),
    }
}

/// A value becomes exactly the Rust types it was made of; every other conversion aborts.
fn conversion<T: Ty>(g: &mut Ctx, v: &V, fits: bool) -> R {
    let what = std::any::type_name::<T>();
    g.describe(format!("{:?} as {}", v, what));
    let back = aborts(|| T::from(v.value()).model());
    if fits {
        check!(back.as_ref() == Ok(v), "conversion", "{:?} as {} gives {:?}", v, what, back);
    } else {
        check!(back.is_err(), "conversion-accepted", "{:?} as {} gives {:?} instead of aborting", v, what, back);
    }
    Ok(())
}

fn kind(v: &V) -> Option<usize> {
    Some(match v {
        V::Bool(_) => 0,
        V::I8(_) => 1,
        V::U8(_) => 2,
        V::I16(_) => 3,
        V::U16(_) => 4,
        V::I32(_) => 5,
        V::U32(_) => 6,
        V::I64(_) => 7,
        V::U64(_) => 8,
        V::Amount(_) => 9,
        V::Addr(_) => 10,
        _ => return None,
    })
}

fn conversions_case(g: &mut Ctx) -> R {
    let v = refabi::any(g);
    let k = if g.flip() {
        match &v {
            V::Arr(a) => a.get(0).and_then(kind),
            v => kind(v),
        }
        .unwrap_or(g.below(11))
    } else {
        g.below(11)
    };
    g.nontrivial = true;
    g.mix(&encode_all(&[v.clone()]));
    match g.draw(3) {
        0 => by_type!(g, k, T => conversion::<T>(g, &v, kind(&v) == Some(k))),
        1 => by_type!(g, k, T => conversion::<O<T>>(g, &v, v == V::None || kind(&v) == Some(k))),
        _ => {
            let n = match &v {
                V::Arr(a) if g.draw(3) > 0 => a.len().max(1).min(10),
                _ => 1 + g.below(10),
            };
            let fits = matches!(&v, V::Arr(a) if a.len() == n && a.iter().all(|x| kind(x) == Some(k)));
            g.label_if(fits, "array-fits");
            macro_rules! n {
                ($t:ty: $($n:literal)*) => {
                    match n { $($n => conversion::<[$t; $n]>(g, &v, fits),)* _ => unreachable!() }
                };
            }
            by_type!(g, k, T => n!(T: 1 2 3 4 5 6 7 8 9 10))
        }
    }
}

pub fn b01() -> Property {
    Property {
        id: "B01",
        level: "exploration",
        rule: "Generated values of every ABI type (integers biased to the changes of their encoded width; addresses, amounts, options, unit, arrays of 0 to 10 elements, tuples of 1 to 6) are encoded through the dynamic Value and through the Rust types, compared byte for byte with a reference encoder written from the table of svm-abi-layout, and decoded back with next and next_1..next_6; values are converted to fitting and unfitting Rust types. Non-trivial: several values, or one with a payload.",
        assumptions: &["arrays of arrays can be encoded but not decoded, as documented; they aren't generated"],
        suites: vec![
            Suite { name: "values", quick: 600_000, thorough: 6_000_000, chunk: 5000, case: values_case },
            Suite { name: "typed", quick: 600_000, thorough: 6_000_000, chunk: 5000, case: typed_case },
            Suite { name: "tuples", quick: 240_000, thorough: 2_000_000, chunk: 2000, case: tuples_case },
            Suite { name: "conversions", quick: 240_000, thorough: 2_000_000, chunk: 2000, case: conversions_case },
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// B02
// ---------------------------------------------------------------------------------------------

/// Memory that ends where the next page is not accessible.
struct Guarded {
    base: *mut u8,
    len: usize,
}

const PAGE: usize = 4096;

impl Guarded {
    fn new(len: usize) -> Self {
        let len = (len + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                len + PAGE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(base != libc::MAP_FAILED, "env: mmap");
            assert!(libc::mprotect((base as *mut u8).add(len) as *mut _, PAGE, libc::PROT_NONE) == 0, "env: mprotect");
            Self { base: base as *mut u8, len }
        }
    }

    /// The bytes, at the very end of the accessible memory.
    fn put(&self, bytes: &[u8]) -> &'static [u8] {
        assert!(bytes.len() <= self.len);
        unsafe {
            let dst = self.base.add(self.len - bytes.len());
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), dst, bytes.len());
            std::slice::from_raw_parts(dst, bytes.len())
        }
    }
}

thread_local! {
    static GUARDED: Guarded = Guarded::new(4 * PAGE);
}

fn malformed(g: &mut Ctx, bytes: &[u8]) -> R {
    g.describe(hex(bytes));
    // what the reference decoder makes of it
    let (mut pos, mut expected, mut valid) = (0, vec![], true);
    while pos < bytes.len() {
        match refabi::decode(bytes, &mut pos, false) {
            Some(v) => expected.push(v),
            None => {
                valid = false;
                break;
            }
        }
    }
    g.label(if valid { "valid" } else { "invalid" });
    g.nontrivial = !valid;
    let data = GUARDED.with(|m| m.put(bytes));
    let mut got = vec![];
    let r = aborts(|| {
        let mut data = CallData::new(data);
        while let svm_sdk_std::Option::Some(v) = data.next() {
            got.push(V::of(&v));
        }
    });
    check!(
        got.iter().zip(&expected).all(|(a, b)| a == b),
        "wrong-value",
        "{} decodes as {:?}, not {:?}",
        hex(bytes),
        got,
        expected
    );
    if valid {
        check!(r.is_ok() && got.len() == expected.len(), "valid-abort", "{} is valid ({:?}), but decodes as {:?}, then {:?}", hex(bytes), expected, got, r);
    } else {
        check!(
            r.is_err(),
            "invalid-accepted",
            "{} isn't valid after {:?}, but decodes as {:?}",
            hex(bytes),
            expected,
            got
        );
        check!(got.len() <= expected.len(), "invalid-value", "{} isn't valid after {:?}, but gives {:?}", hex(bytes), expected, got);
    }
    Ok(())
}

fn mutated_case(g: &mut Ctx) -> R {
    let n = 1 + g.below(6);
    let vs: Vec<V> = (0..n).map(|_| refabi::any(g)).collect();
    let mut bytes = encode_all(&vs);
    super::codec::mutate(g, &mut bytes);
    malformed(g, &bytes)
}

fn random_case(g: &mut Ctx) -> R {
    let n = g.below(40);
    let mut bytes = g.bytes(n);
    if g.flip() {
        // mostly markers
        for b in bytes.iter_mut() {
            *b = ((*b >> 4 & 7) << 4) | (*b & 7);
        }
    }
    malformed(g, &bytes)
}

/// Every strict prefix of a valid encoding.
fn prefixes_case(g: &mut Ctx) -> R {
    let n = 1 + g.below(4);
    let vs: Vec<V> = (0..n).map(|_| refabi::any(g)).collect();
    let bytes = encode_all(&vs);
    for n in 0..bytes.len() {
        malformed(g, &bytes[..n])?;
    }
    g.nontrivial = bytes.len() > 1;
    g.describe(hex(&bytes));
    Ok(())
}

pub fn b02() -> Property {
    Property {
        id: "B02",
        level: "exploration",
        rule: "Mutated encodings, random bytes (half of them made of plausible markers) and all strict prefixes of generated encodings are placed right before an inaccessible page and decoded value by value; the values, and whether decoding aborts, are compared with a reference decoder. Non-trivial: the input isn't valid.",
        assumptions: &["an abort is a panic on the host (a trap in Wasm)", "wider encodings of an integer than necessary are valid"],
        suites: vec![
            Suite { name: "mutated", quick: 600_000, thorough: 6_000_000, chunk: 5000, case: mutated_case },
            Suite { name: "random", quick: 360_000, thorough: 4_000_000, chunk: 5000, case: random_case },
            Suite { name: "prefixes", quick: 48_000, thorough: 400_000, chunk: 500, case: prefixes_case },
        ],
    }
}
