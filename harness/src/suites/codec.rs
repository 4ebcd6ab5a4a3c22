//! X01, X02: the binary formats.

use std::collections::HashSet;
use std::fmt::Debug;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

use svm_codec::{template, Codec, ParseError};
use svm_layout::{FixedLayout, Layout};
use svm_types::*;

use crate::pbt::{Ctx, R};
use crate::runner::{Property, Suite};
use crate::{check, check_eq, gens, refcodec};

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(96).map(|b| format!("{:02x}", b)).collect();
    if b.len() > 96 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

fn decode_at<T: Codec<Error = ParseError>>(bytes: &[u8]) -> (Result<T, ParseError>, usize) {
    let mut cursor = Cursor::new(bytes);
    let r = T::decode(&mut cursor);
    (r, cursor.position() as usize)
}

/// encode = the documented bytes; decode of them (and whatever follows) = the value.
fn round_trip<T>(g: &mut Ctx, kind: &str, v: &T, documented: &[u8], sort: std::ops::Range<usize>) -> R
where
    T: Codec<Error = ParseError> + PartialEq,
{
    let bytes = v.encode_to_vec();
    check!(
        refcodec::sort_touched(&bytes, sort) == documented,
        format!("{}-format", kind),
        "{}: encoded as {} instead of {}",
        kind,
        hex(&bytes),
        hex(documented)
    );
    check!(
        v.encode_to_vec() == bytes,
        format!("{}-unstable", kind),
        "{}: encoded differently the second time",
        kind
    );
    if let Some(n) = T::fixed_size() {
        check_eq!(bytes.len(), n, format!("{}-fixed-size", kind), "{}: encoded length", kind);
    }
    let tail = gens::blob(g, 40);
    let mut with_tail = bytes.clone();
    with_tail.extend_from_slice(&tail);
    let (back, pos) = decode_at::<T>(&with_tail);
    match back {
        Err(e) => check!(false, format!("{}-rejected", kind), "{}: {} is rejected: {:?}", kind, hex(&bytes), e),
        Ok(back) => {
            check!(
                back == *v,
                format!("{}-changed", kind),
                "{}: {} decodes to another value, which encodes as {}",
                kind,
                hex(&bytes),
                hex(&back.encode_to_vec())
            );
            check_eq!(pos, bytes.len(), format!("{}-consumed", kind), "{}: bytes consumed", kind);
        }
    }
    match T::decode_bytes(&bytes) {
        Ok(back) => check!(back == *v, format!("{}-changed", kind), "{}: decode_bytes gives another value", kind),
        Err(e) => check!(false, format!("{}-rejected", kind), "{}: decode_bytes: {:?}", kind, e),
    }
    Ok(())
}

fn interests(g: &mut Ctx) -> HashSet<SectionKind> {
    let mut set = HashSet::new();
    set.insert(SectionKind::Code);
    set.insert(SectionKind::Data);
    set.insert(SectionKind::Ctors);
    for k in &[SectionKind::Header, SectionKind::Deploy, SectionKind::Schema, SectionKind::Api] {
        if g.flip() {
            set.insert(*k);
        }
    }
    set
}

fn messages_case(g: &mut Ctx) -> R {
    match g.draw(4) {
        0 => {
            let v = gens::envelope(g);
            g.describe(format!("{:?}", v));
            g.label("envelope");
            g.nontrivial = v.amount() > 255 || v.nonce() > 255;
            round_trip(g, "envelope", &v, &refcodec::envelope(&v), 0..0)
        }
        1 => {
            let v = gens::context(g);
            g.describe(format!("{:?}", v));
            g.label("context");
            g.nontrivial = true;
            round_trip(g, "context", &v, &refcodec::context(&v), 0..0)
        }
        2 => {
            let v = gens::transaction(g);
            g.describe(format!("{:?} {:?}", v, hex(&v.calldata)));
            g.label("transaction");
            g.label_if(v.calldata.len() == 255 || v.verifydata.len() == 255 || v.func_name.len() == 255, "at-limit");
            g.nontrivial = !v.calldata.is_empty() || !v.verifydata.is_empty();
            round_trip(g, "transaction", &v, &refcodec::transaction(&v), 0..0)
        }
        _ => {
            let v = gens::spawn(g);
            g.describe(format!("{:?}", v));
            g.label("spawn");
            g.nontrivial = !v.calldata.is_empty() || !v.account.name.is_empty();
            round_trip(g, "spawn", &v, &refcodec::spawn(&v), 0..0)
        }
    }
}

fn template_case(g: &mut Ctx) -> R {
    let t = gens::template(g);
    let documented = refcodec::sections(t.sections());
    g.mix(&documented);
    let kinds: Vec<SectionKind> = t.sections().iter().map(|s| s.kind()).collect();
    g.describe(format!("{:?}: {}", kinds, hex(&documented)));
    g.nontrivial = true;
    g.label_if(kinds.len() == 5, "all-sections");
    g.label_if(documented.len() > 65536, "over-64k");
    let bytes = template::encode(&t);
    check!(
        bytes == documented,
        "template-format",
        "sections {:?} encoded as {} instead of {}",
        kinds,
        hex(&bytes),
        hex(&documented)
    );
    let tail = gens::blob(g, 20);
    let mut with_tail = bytes.clone();
    with_tail.extend_from_slice(&tail);
    let mut cursor = Cursor::new(&with_tail[..]);
    let back = template::decode(&mut cursor, None);
    match back {
        Err(e) => check!(false, "template-rejected", "{:?}", e),
        Ok(back) => {
            check!(back == t, "template-changed", "decoded template differs");
            let order: Vec<SectionKind> = back.sections().iter().map(|s| s.kind()).collect();
            check_eq!(order, kinds, "template-order", "sections");
            check_eq!(cursor.position() as usize, bytes.len(), "template-consumed", "bytes consumed");
        }
    }
    // Only some sections.
    let wanted = interests(g);
    let mut cursor = Cursor::new(&with_tail[..]);
    match template::decode(&mut cursor, Some(wanted.clone())) {
        Err(e) => check!(false, "template-interests-rejected", "{:?} for {:?}", e, wanted),
        Ok(back) => {
            let mut expected = Sections::default();
            for s in t.sections().iter().filter(|s| wanted.contains(&s.kind())) {
                expected.insert(s.clone());
            }
            g.label_if(expected.len() < kinds.len(), "sections-skipped");
            check!(
                *back.sections() == expected,
                "template-interests",
                "asked for {:?} of {:?}, got {:?}",
                wanted,
                kinds,
                back.sections().iter().map(|s| s.kind()).collect::<Vec<_>>()
            );
            check_eq!(cursor.position() as usize, bytes.len(), "template-consumed", "bytes consumed when skipping");
        }
    }
    // A template needs its core sections.
    let core = *g.pick(&[SectionKind::Code, SectionKind::Data, SectionKind::Ctors]);
    let mut without = wanted;
    without.remove(&core);
    let r = template::decode(&mut Cursor::new(&with_tail[..]), Some(without));
    check!(r.is_err(), "template-no-core", "a template without its {:?} was accepted", core);
    // `Sections` on their own.
    match Sections::decode_bytes(&bytes) {
        Ok(s) => check!(s == *t.sections(), "sections-changed", "decoded sections differ"),
        Err(e) => check!(false, "sections-rejected", "{:?}", e),
    }
    check!(
        t.sections().encode_to_vec() == documented,
        "sections-format",
        "sections encode differently from their template"
    );
    Ok(())
}

fn receipt_name(r: &Receipt) -> String {
    let (kind, e) = match r {
        Receipt::Deploy(r) => ("deploy", r.error.as_ref()),
        Receipt::Spawn(r) => ("spawn", r.error.as_ref()),
        Receipt::Call(r) => ("call", r.error.as_ref()),
    };
    match e {
        None => format!("{}-ok", kind),
        Some(e) => {
            let d = format!("{:?}", e);
            let name: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
            format!("{}-{}", kind, name)
        }
    }
}

fn receipt_case(g: &mut Ctx) -> R {
    let r = gens::receipt(g, 255);
    let name = receipt_name(&r);
    let (documented, range) = refcodec::receipt(&r);
    g.label(&name);
    g.mix(&documented);
    g.describe(format!("{} {}", name, hex(&documented)));
    g.nontrivial = true;
    g.label_if(range.len() > 20, "touched>1");
    g.label_if(r.logs().len() > 250, "logs>250");
    round_trip(g, &format!("receipt {}", name), &r, &documented, range.clone())?;
    match r {
        Receipt::Deploy(r) => round_trip(g, &name, &r, &documented, range),
        Receipt::Spawn(r) => round_trip(g, &name, &r, &documented, range),
        Receipt::Call(r) => round_trip(g, &name, &r, &documented, range),
    }
}

/// Receipts that are equal have one encoding, however their sets were built.
fn equal_receipts_case(g: &mut Ctx) -> R {
    let n = 2 + g.size(30);
    let addrs: Vec<Address> = (0..n).map(|_| gens::addr(g)).collect();
    let mut a = HashSet::new();
    let mut b = HashSet::with_capacity(512);
    for x in &addrs {
        a.insert(*x);
    }
    for _ in 0..g.below(200) {
        b.insert(Address([g.draw(256) as u8; 20]));
    }
    b.clear();
    for x in addrs.iter().rev() {
        b.insert(*x);
    }
    let make = |touched: HashSet<Address>, spawn: bool| {
        if spawn {
            Receipt::Spawn(SpawnReceipt {
                version: 0,
                success: true,
                error: None,
                account_addr: Some(Address([1; 20])),
                init_state: Some(State([2; 32])),
                returndata: Some(vec![]),
                gas_used: Gas::new(),
                touched_accounts: touched,
                logs: vec![],
            })
        } else {
            Receipt::Call(CallReceipt {
                version: 0,
                success: true,
                error: None,
                new_state: Some(State([2; 32])),
                returndata: Some(vec![]),
                gas_used: Gas::new(),
                touched_accounts: touched,
                logs: vec![],
            })
        }
    };
    let spawn = g.flip();
    g.describe(format!("{} touched accounts {:?}", n, addrs.first()));
    g.nontrivial = true;
    let x = make(a, spawn).encode_to_vec();
    let y = make(b, spawn).encode_to_vec();
    check!(x == y, "equal-receipts-differ", "equal receipts encode as {} and {}", hex(&x), hex(&y));
    Ok(())
}

/// A message that doesn't fit is cut at a character boundary; nothing else of the receipt changes.
fn long_message_case(g: &mut Ctx) -> R {
    let mut r = gens::receipt(g, 255);
    let len = 250 + g.below(400);
    let mut msg = String::new();
    while msg.len() < len {
        msg.push(*g.pick(&['a', 'é', '中', '🦀']));
    }
    let (target, template) = (gens::addr(g), gens::template_addr(g));
    let func = gens::string(g, 255);
    let kind = g.draw(4);
    let make = |msg: String| match kind {
        0 => RuntimeError::CompilationFailed { target, template, msg },
        1 => RuntimeError::InstantiationFailed { target, template, msg },
        2 => RuntimeError::FuncFailed { target, template, func: func.clone(), msg },
        _ => RuntimeError::FuncNotAllowed { target, template, func: func.clone(), msg },
    };
    let logs = r.logs().to_vec();
    let with = |r: &Receipt, e: RuntimeError| match r {
        Receipt::Deploy(_) => Receipt::Deploy(DeployReceipt::from_err(e, logs.clone())),
        Receipt::Spawn(_) => Receipt::Spawn(SpawnReceipt::from_err(e, logs.clone())),
        Receipt::Call(_) => Receipt::Call(CallReceipt::from_err(e, logs.clone())),
    };
    r = with(&r, make(msg.clone()));
    let name = receipt_name(&r);
    g.label(&name);
    g.describe(format!("{} with a message of {} bytes", name, msg.len()));
    g.mix(msg.as_bytes());
    g.nontrivial = msg.len() > 255;
    let bytes = r.encode_to_vec();
    let back = match Receipt::decode_bytes(&bytes) {
        Ok(b) => b,
        Err(e) => return crate::pbt::fail("long-message-rejected", format!("{:?}", e)),
    };
    let got = match back.error() {
        RuntimeError::CompilationFailed { msg, .. }
        | RuntimeError::InstantiationFailed { msg, .. }
        | RuntimeError::FuncFailed { msg, .. }
        | RuntimeError::FuncNotAllowed { msg, .. } => msg.clone(),
        e => return crate::pbt::fail("long-message-kind", format!("{:?}", e)),
    };
    if msg.len() <= 255 {
        check!(got == msg, "message-cut", "a message of {} bytes was cut to {}", msg.len(), got.len());
    } else {
        check!(
            msg.starts_with(&got) && got.len() >= 252 && got.len() <= 255,
            "message-cut",
            "a message of {} bytes became {:?}",
            msg.len(),
            got
        );
    }
    check!(back == with(&back, make(got)), "long-message-changed", "the rest of the receipt changed");
    Ok(())
}

/// A length about a limit of the format, and whether the format has room for it.
fn about(g: &mut Ctx, limit: usize) -> (usize, bool) {
    let n = match g.draw(8) {
        0 | 1 => limit,
        2 | 3 => limit + 1,
        4 => limit - g.below(3),
        5 => limit + 1 + g.below(limit),
        6 => 2 * limit + 1 + g.below(4),
        _ => limit + 2 + g.below(20),
    };
    (n, n <= limit)
}

/// Values beyond what the format can hold are refused, never encoded as something else.
fn limits_case(g: &mut Ctx) -> R {
    fn check_one<T>(g: &mut Ctx, what: &str, v: &T, n: usize, fits: bool) -> R
    where
        T: Codec<Error = ParseError> + PartialEq,
    {
        g.label(what);
        g.label(if fits { "fits" } else { "beyond" });
        g.describe(format!("{} of {}", what, n));
        g.nontrivial = true;
        match catch_unwind(AssertUnwindSafe(|| v.encode_to_vec())) {
            Err(_) => {
                let msg = crate::runner::take_last_panic().unwrap_or_default();
                check!(!fits, "limit-refused", "{} of {} can't be encoded: {}", what, n, msg);
            }
            Ok(bytes) => match T::decode_bytes(&bytes) {
                Ok(back) => check!(back == *v, "limit-changed", "{} of {} is encoded as something else", what, n),
                Err(e) => check!(false, "limit-rejected", "{} of {} is encoded as {}, which is rejected: {:?}", what, n, hex(&bytes), e),
            },
        }
        Ok(())
    }
    let text = |n: usize| "a".repeat(n);
    let mut tx = gens::transaction(g);
    let mut spawn = gens::spawn(g);
    match g.below(16) {
        0 => {
            let (n, fits) = about(g, 255);
            tx.func_name = text(n);
            check_one(g, "function name", &tx, n, fits)
        }
        1 => {
            let (n, fits) = about(g, 255);
            tx.calldata = vec![7; n];
            check_one(g, "calldata", &tx, n, fits)
        }
        2 => {
            let (n, fits) = about(g, 255);
            tx.verifydata = vec![7; n];
            check_one(g, "verifydata", &tx, n, fits)
        }
        3 => {
            let (n, fits) = about(g, 255);
            spawn.account.name = text(n);
            check_one(g, "account name", &spawn, n, fits)
        }
        4 => {
            let (n, fits) = about(g, 255);
            spawn.ctor_name = text(n);
            check_one(g, "constructor name", &spawn, n, fits)
        }
        5 => {
            let (n, fits) = about(g, 255);
            spawn.calldata = vec![7; n];
            check_one(g, "constructor calldata", &spawn, n, fits)
        }
        6 => {
            let (n, fits) = about(g, 255);
            check_one(g, "constructors", &CtorsSection::new(vec!["c".to_string(); n]), n, fits)
        }
        7 => {
            let (n, fits) = about(g, 255);
            let ctors = vec!["x".to_string(), text(n), "y".to_string()];
            check_one(g, "listed constructor name", &CtorsSection::new(ctors), n, fits)
        }
        8 => {
            let (n, fits) = about(g, 255);
            let (name, desc) = if g.flip() { (text(n), "d".to_string()) } else { ("n".to_string(), text(n)) };
            check_one(g, "header text", &HeaderSection::new(1, name, desc), n, fits)
        }
        9 => {
            let (n, fits) = about(g, 65535);
            let layout = FixedLayout::from_byte_sizes(g.below(9) as u32, &vec![1; n]);
            check_one(g, "variables", &DataSection::with_layout(Layout::Fixed(layout)), n, fits)
        }
        10 | 11 => {
            let (n, fits) = about(g, 65535);
            let mut sizes: Vec<u32> = (0..1 + g.below(4)).map(|_| g.int(8) as u32).collect();
            let at = g.below(sizes.len());
            sizes[at] = n as u32;
            let layout = FixedLayout::from_byte_sizes(g.below(9) as u32, &sizes);
            check_one(g, "variable size", &DataSection::with_layout(Layout::Fixed(layout)), n, fits)
        }
        kind => {
            let (limit, what) = match kind {
                12 => (255, "logs"),
                13 => (65535, "log length"),
                14 => (65535, "returndata"),
                _ => (65535, "touched accounts"),
            };
            let (n, fits) = about(g, limit);
            let mut r = CallReceipt {
                version: 0,
                success: true,
                error: None,
                new_state: Some(gens::state(g)),
                returndata: Some(vec![1]),
                gas_used: Gas::new(),
                touched_accounts: HashSet::new(),
                logs: vec![ReceiptLog::new(vec![1])],
            };
            match kind {
                12 => r.logs = vec![ReceiptLog::new(vec![2]); n],
                13 => r.logs.push(ReceiptLog::new(vec![3; n])),
                14 => r.returndata = Some(vec![4; n]),
                _ => {
                    r.touched_accounts = (0..n as u32)
                        .map(|i| {
                            let mut a = [9; 20];
                            a[..4].copy_from_slice(&i.to_be_bytes());
                            Address(a)
                        })
                        .collect()
                }
            }
            if g.flip() {
                check_one(g, what, &Receipt::Call(r), n, fits)
            } else {
                let r = into_spawn_receipt(r, &Address([1; 20]));
                check_one(g, what, &Receipt::Spawn(r), n, fits)
            }
        }
    }
}

pub fn x01() -> Property {
    Property {
        id: "X01",
        level: "exploration",
        rule: "Values are generated over their full encodable domain (integers with boundary bias, UTF-8 strings and blobs up to the length their prefix allows, templates with any subset and order of sections, receipts of all 3 kinds with success or any of the 10 errors, up to 255 logs), encoded, compared with an independent encoder of the documented layout, and decoded back with and without trailing bytes. limits: one length or count at, just below or beyond what its prefix can hold; it round-trips, or, beyond, is refused. Non-trivial: the value has non-default variable content (all templates, contexts, receipts; messages with a payload; messages over 255 bytes in the truncation suite).",
        assumptions: &[
            "the documented layouts, as written in the doc comments of svm-codec, are the specification; where they are silent (order of touched accounts, error blobs) the layout at the pinned commit is",
            "a gas amount of 0 is left out: it is encoded like an absent one",
        ],
        suites: vec![
            Suite { name: "messages", quick: 240_000, thorough: 6_000_000, chunk: 2500, case: messages_case },
            Suite { name: "templates", quick: 48_000, thorough: 1_000_000, chunk: 500, case: template_case },
            Suite { name: "receipts", quick: 120_000, thorough: 2_500_000, chunk: 1000, case: receipt_case },
            Suite { name: "equal_receipts", quick: 1600, thorough: 10_000, chunk: 400, case: equal_receipts_case },
            Suite { name: "limits", quick: 4000, thorough: 60_000, chunk: 50, case: limits_case },
            Suite { name: "long_messages", quick: 16_000, thorough: 200_000, chunk: 500, case: long_message_case },
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// X02
// ---------------------------------------------------------------------------------------------

/// A bound on the address space, so that a decoder that trusts a length prefix fails.
pub fn limit_memory() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let lim = libc::rlimit { rlim_cur: 2 << 30, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    });
}

pub fn mutate(g: &mut Ctx, bytes: &mut Vec<u8>) {
    let n = 1 + g.below(4);
    for _ in 0..n {
        let len = bytes.len();
        let at = if len == 0 { 0 } else { g.below(len) };
        match g.draw(8) {
            0 => bytes.truncate(at),
            1 => {
                if len > 0 {
                    bytes[at] ^= 1 << g.draw(8);
                }
            }
            2 => {
                if len > 0 {
                    bytes[at] = *g.pick(&[0, 1, 2, 7, 8, 9, 10, 0x7f, 0x80, 0xfe, 0xff]);
                }
            }
            3 => {
                let ins = gens::blob(g, 8);
                for (i, b) in ins.into_iter().enumerate() {
                    bytes.insert((at + i).min(bytes.len()), b);
                }
            }
            4 => {
                let to = (at + 1 + g.below(8)).min(len);
                if at < to {
                    bytes.drain(at..to);
                }
            }
            5 => {
                let to = (at + 1 + g.below(24)).min(len);
                if at < to {
                    let copy = bytes[at..to].to_vec();
                    let dst = g.below(len + 1);
                    for (i, b) in copy.into_iter().enumerate() {
                        bytes.insert((dst + i).min(bytes.len()), b);
                    }
                }
            }
            6 => {
                // a run of 0xff: absurd lengths
                for i in at..(at + 4).min(len) {
                    bytes[i] = 0xff;
                }
            }
            _ => {
                // the head, where kinds, versions and counts are
                if len > 0 {
                    let i = g.below(len.min(12));
                    bytes[i] = g.draw(256) as u8;
                }
            }
        }
    }
}

/// Decoding returns; what it returns encodes and decodes to itself again.
fn total<T>(kind: &str, bytes: &[u8], canonical: bool) -> Result<bool, crate::pbt::Fail>
where
    T: Codec<Error = ParseError> + PartialEq,
{
    let r = catch_unwind(AssertUnwindSafe(|| decode_at::<T>(bytes)));
    let (r, pos) = match r {
        Ok(x) => x,
        Err(_) => {
            let what = crate::runner::take_last_panic().unwrap_or_default();
            return crate::pbt::fail(
                format!("{}-decode-panic", kind),
                format!("decoding {} as a {} panics: {}", hex(bytes), kind, what),
            );
        }
    };
    let v = match r {
        Err(_) => return Ok(false),
        Ok(v) => v,
    };
    check!(pos <= bytes.len(), format!("{}-overread", kind), "consumed {} of {}", pos, bytes.len());
    let again = match catch_unwind(AssertUnwindSafe(|| v.encode_to_vec())) {
        Ok(x) => x,
        Err(_) => {
            let what = crate::runner::take_last_panic().unwrap_or_default();
            return crate::pbt::fail(
                format!("{}-reencode-panic", kind),
                format!("{} decoded from {} can't be encoded: {}", kind, hex(bytes), what),
            );
        }
    };
    if canonical {
        check!(
            again == bytes[..pos],
            format!("{}-malleable", kind),
            "{} decodes to a {} whose encoding is {}",
            hex(&bytes[..pos]),
            kind,
            hex(&again)
        );
    }
    match T::decode_bytes(&again) {
        Ok(w) => check!(w == v, format!("{}-unstable", kind), "{}: decode, encode, decode changes {}", kind, hex(bytes)),
        Err(e) => check!(false, format!("{}-unstable", kind), "{}: re-encoded {} is rejected: {:?}", kind, hex(&again), e),
    }
    Ok(true)
}

const KINDS: u64 = 8;

fn valid_bytes(g: &mut Ctx, kind: u64) -> Vec<u8> {
    match kind {
        0 => refcodec::envelope(&gens::envelope(g)),
        1 => refcodec::context(&gens::context(g)),
        2 => refcodec::transaction(&gens::transaction(g)),
        3 => refcodec::spawn(&gens::spawn(g)),
        4 => refcodec::sections(gens::template(g).sections()),
        _ => refcodec::receipt(&gens::receipt(g, 255)).0,
    }
}

fn decode_kind(g: &mut Ctx, kind: u64, bytes: &[u8]) -> Result<bool, crate::pbt::Fail> {
    match kind {
        0 => total::<Envelope>("envelope", bytes, true),
        1 => total::<Context>("context", bytes, true),
        2 => total::<Transaction>("transaction", bytes, true),
        3 => total::<SpawnAccount>("spawn", bytes, true),
        4 => {
            let ok = total::<Sections>("sections", bytes, false)?;
            let wanted = interests(g);
            for wanted in vec![None, Some(wanted)] {
                let r = catch_unwind(AssertUnwindSafe(|| template::decode(&mut Cursor::new(bytes), wanted)));
                match r {
                    Err(_) => {
                        let what = crate::runner::take_last_panic().unwrap_or_default();
                        return crate::pbt::fail("template-decode-panic", format!("decoding {} panics: {}", hex(bytes), what));
                    }
                    Ok(Err(_)) => {}
                    Ok(Ok(t)) => {
                        let again = match catch_unwind(AssertUnwindSafe(|| template::encode(&t))) {
                            Ok(x) => x,
                            Err(_) => return crate::pbt::fail("template-reencode-panic", hex(bytes)),
                        };
                        match template::decode(&mut Cursor::new(&again[..]), None) {
                            Ok(u) => check!(u == t, "template-unstable", "decode, encode, decode changes {}", hex(bytes)),
                            Err(e) => check!(false, "template-unstable", "{:?}", e),
                        }
                    }
                }
            }
            Ok(ok)
        }
        5 => {
            let a = total::<DeployReceipt>("deploy-receipt", bytes, true)?;
            Ok(a)
        }
        6 => {
            let a = total::<SpawnReceipt>("spawn-receipt", bytes, false)?;
            let b = total::<CallReceipt>("call-receipt", bytes, false)?;
            Ok(a || b)
        }
        _ => total::<Receipt>("receipt", bytes, false),
    }
}

fn mutated_case(g: &mut Ctx) -> R {
    limit_memory();
    let kind = g.draw(KINDS);
    let mut bytes = valid_bytes(g, kind);
    mutate(g, &mut bytes);
    g.describe(format!("kind {} {}", kind, hex(&bytes)));
    g.nontrivial = true;
    let ok = decode_kind(g, kind, &bytes)?;
    g.label_if(ok, &format!("kind{}-accepted", kind));
    g.label_if(!ok, &format!("kind{}-rejected", kind));
    Ok(())
}

fn random_case(g: &mut Ctx) -> R {
    limit_memory();
    let kind = g.draw(KINDS);
    let mut bytes = gens::blob(g, 300);
    // a plausible head, so that more than the first field is looked at
    match g.draw(3) {
        0 => {}
        1 => {
            let head: Vec<u8> = match kind {
                4 => {
                    let mut h = vec![0, g.draw(8) as u8];
                    h.extend_from_slice(&[0, g.draw(9) as u8, 0, 0, 0, g.draw(64) as u8]);
                    h.extend_from_slice(&[0, g.draw(3) as u8]);
                    h
                }
                5 => vec![0, 0, 0, g.draw(2) as u8, g.draw(11) as u8],
                6 | 7 => vec![g.draw(4) as u8, 0, 0, g.draw(3) as u8, g.draw(11) as u8],
                _ => vec![],
            };
            for (i, b) in head.into_iter().enumerate() {
                if i < bytes.len() {
                    bytes[i] = b;
                }
            }
        }
        _ => {
            let zeros = g.below(bytes.len() + 1);
            bytes[..zeros].iter_mut().for_each(|b| *b &= 3);
        }
    }
    g.describe(format!("kind {} {}", kind, hex(&bytes)));
    g.nontrivial = bytes.len() >= 4;
    let ok = decode_kind(g, kind, &bytes)?;
    g.label_if(ok, &format!("kind{}-accepted", kind));
    Ok(())
}

fn prefix_case(g: &mut Ctx) -> R {
    limit_memory();
    let kind = g.draw(KINDS);
    let bytes = valid_bytes(g, kind);
    g.describe(format!("every prefix of kind {} {}", kind, hex(&bytes)));
    g.nontrivial = bytes.len() > 1;
    check!(
        kind == 5 || kind == 6 || decode_kind(g, kind, &bytes)?,
        "valid-rejected",
        "a valid encoding of kind {} is rejected: {}",
        kind,
        hex(&bytes)
    );
    let cuts: Vec<usize> = if bytes.len() <= 400 {
        (0..bytes.len()).collect()
    } else {
        let mut c: Vec<usize> = (0..120).chain(bytes.len() - 60..bytes.len()).collect();
        for _ in 0..100 {
            c.push(g.below(bytes.len()));
        }
        c
    };
    for n in cuts {
        let ok = decode_kind(g, kind, &bytes[..n])?;
        check!(
            !ok,
            "prefix-accepted",
            "kind {}: the first {} of the {} bytes {} decode to a value",
            kind,
            n,
            bytes.len(),
            hex(&bytes)
        );
    }
    Ok(())
}

pub fn x02() -> Property {
    Property {
        id: "X02",
        level: "exploration",
        rule: "Byte strings: valid encodings of generated values mutated by 1-4 edits (bit flips, boundary bytes, truncation, insertion, deletion, duplication, 0xff runs, head bytes), random bytes with plausible heads, and every strict prefix of valid encodings; each is given to the decoders of envelopes, contexts, transactions, spawns, templates (with and without a selection of sections) and receipts. Oracle: the decoder returns; an accepted value encodes again and decodes to itself, for messages and deploy receipts to exactly the accepted bytes; a strict prefix is rejected. Non-trivial: at least 4 bytes (random), any mutated input.",
        assumptions: &["the process has 2 GiB of address space: a decoder that allocates what an absurd length prefix asks for fails"],
        suites: vec![
            Suite { name: "mutated", quick: 400_000, thorough: 10_000_000, chunk: 2500, case: mutated_case },
            Suite { name: "random", quick: 240_000, thorough: 6_000_000, chunk: 2500, case: random_case },
            Suite { name: "prefixes", quick: 10_000, thorough: 150_000, chunk: 100, case: prefix_case },
        ],
    }
}

#[allow(dead_code)]
fn _assert<T: Debug>(_: T) {}
