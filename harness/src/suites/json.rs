//! X03, X04: the JSON API of the codec, and the same over WASM buffers.

use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value as Json};
use svm_codec::api::json::{self, JsonError};
use svm_codec::api::wasm;
use svm_codec::Codec;
use svm_types::*;

use crate::pbt::{fail, Ctx, Fail, R};
use crate::refabi::{self, encode_all, upper, TYPES, V};
use crate::runner::{Property, Suite};
use crate::suites::hex;
use crate::{check, gens, refcodec};

/// Calls a function of the API, which must not panic.
fn api<T>(what: &str, input: &str, f: impl Fn(&str) -> Result<T, JsonError>) -> Result<Result<T, JsonError>, Fail> {
    match catch_unwind(AssertUnwindSafe(|| f(input))) {
        Ok(r) => Ok(r),
        Err(_) => fail(
            format!("{}-panic", what),
            format!("{} of {:.400} panics: {}", what, input, crate::runner::take_last_panic().unwrap_or_default()),
        ),
    }
}

/// Values of the JSON API, with their signatures (as given, and as decoding shows them).
struct Input {
    vals: Vec<V>,
    abi: Vec<Json>,
    abi_back: Vec<Json>,
}

impl Input {
    fn data(&self) -> Vec<Json> {
        self.vals.iter().map(|v| v.json()).collect()
    }
    fn json(&self) -> Json {
        json!({"abi": self.abi, "data": self.data()})
    }
    fn back(&self) -> Json {
        json!({"abi": self.abi_back, "data": self.data()})
    }
}

fn input(g: &mut Ctx, max: usize) -> Input {
    let mut i = Input { vals: vec![], abi: vec![], abi_back: vec![] };
    let n = g.below(max + 1);
    for _ in 0..n {
        let t = g.below(TYPES.len());
        if g.one_in(3) {
            let n = g.below(11);
            i.vals.push(V::Arr((0..n).map(|_| refabi::prim_of(g, t)).collect()));
            i.abi.push(json!([TYPES[t]]));
            // the element type of an empty array isn't encoded
            i.abi_back.push(if n == 0 { Json::Null } else { json!([TYPES[t]]) });
        } else {
            i.vals.push(refabi::prim_of(g, t));
            i.abi.push(json!(TYPES[t]));
            i.abi_back.push(json!(TYPES[t]));
        }
    }
    i
}

/// Values that take at most 255 bytes, as the calldata of a transaction must.
fn small_input(g: &mut Ctx) -> Input {
    let mut i = input(g, 6);
    while encode_all(&i.vals).len() > 255 {
        i.vals.pop();
        i.abi.pop();
        i.abi_back.pop();
    }
    i
}

/// The hex of the API: upper-case, but either case is understood.
fn hex_in(g: &mut Ctx, bytes: &[u8]) -> String {
    let h = upper(bytes);
    match g.draw(3) {
        0 => h.to_lowercase(),
        _ => h,
    }
}

fn inputdata_case(g: &mut Ctx) -> R {
    let i = input(g, 8);
    let text = i.json().to_string();
    let bytes = encode_all(&i.vals);
    g.mix(text.as_bytes());
    g.describe(text.clone());
    g.nontrivial = i.vals.len() > 1;
    g.label_if(i.vals.iter().any(|v| matches!(v, V::Arr(_))), "array");
    let enc = api("encode_inputdata", &text, json::encode_inputdata)?;
    check!(enc == Ok(json!({ "data": upper(&bytes) })), "inputdata-encoded", "{} is encoded as {:?} instead of {}", text, enc, hex(&bytes));
    let data = json!({ "data": hex_in(g, &bytes) }).to_string();
    let dec = api("decode_inputdata", &data, json::decode_inputdata)?;
    check!(dec == Ok(i.back()), "inputdata-decoded", "{} is decoded as {:?}", text, dec);
    Ok(())
}

/// A value that the type can't hold.
fn misfit(g: &mut Ctx, t: usize) -> Json {
    let not_a_number = [json!(null), json!(true), json!("5"), json!(1.5), json!([]), json!([1]), json!({}), json!("")];
    let range = |lo: i128, hi: i128, g: &mut Ctx| -> Json {
        let x = match g.draw(4) {
            0 => lo - 1,
            1 => hi + 1,
            2 => lo - 1 - g.int(63) as i128,
            _ => hi + 1 + g.int(63) as i128,
        };
        // (beyond 64 bits it is a float for the parser)
        serde_json::from_str(&x.to_string()).unwrap()
    };
    match t {
        0 => g.pick(&[json!(null), json!(0), json!(1), json!("true"), json!([true]), json!({})]).clone(),
        10 => match g.draw(4) {
            0 => g.pick(&[json!(null), json!(0), json!([]), json!(false), json!({})]).clone(),
            1 => {
                let n = *g.pick(&[0, 1, 19, 21, 32]);
                let b = g.bytes(n);
                json!(upper(&b))
            }
            2 => {
                let mut s = upper(&g.bytes(20));
                s.pop();
                json!(s)
            }
            _ => {
                let mut s = upper(&g.bytes(20));
                let bad: &str = *g.pick(&["G", "x", " ", "é", "-"]);
                s.replace_range(7..8, bad);
                json!(s)
            }
        },
        _ if g.flip() => g.pick(&not_a_number).clone(),
        1 => range(i8::MIN.into(), i8::MAX.into(), g),
        2 => range(0, u8::MAX.into(), g),
        3 => range(i16::MIN.into(), i16::MAX.into(), g),
        4 => range(0, u16::MAX.into(), g),
        5 => range(i32::MIN.into(), i32::MAX.into(), g),
        6 => range(0, u32::MAX.into(), g),
        7 => range(i64::MIN.into(), i64::MAX.into(), g),
        _ => range(0, u64::MAX.into(), g),
    }
}

/// Makes the input data one that has no encoding; returns what was done.
fn spoil(g: &mut Ctx, i: &mut Json) -> String {
    let n = i["data"].as_array().unwrap().len();
    let at = g.below(n + 1);
    let t = g.below(TYPES.len());
    let mut insert = |sig: Json, val: Json| {
        i["abi"].as_array_mut().unwrap().insert(at, sig);
        i["data"].as_array_mut().unwrap().insert(at, val);
    };
    match g.draw(9) {
        0 | 1 => {
            let bad = misfit(g, t);
            let what = format!("{} as {}", bad, TYPES[t]);
            insert(json!(TYPES[t]), bad);
            what
        }
        2 => {
            let mut a: Vec<Json> = (0..g.below(10)).map(|_| refabi::prim_of(g, t).json()).collect();
            let k = g.below(a.len() + 1);
            let bad = misfit(g, t);
            let what = format!("{} in an array of {}", bad, TYPES[t]);
            a.insert(k, bad);
            insert(json!([TYPES[t]]), Json::Array(a));
            what
        }
        3 => {
            let n = 11 + g.below(30);
            let a: Vec<Json> = (0..n).map(|_| refabi::prim_of(g, t).json()).collect();
            insert(json!([TYPES[t]]), Json::Array(a));
            format!("an array of {}", n)
        }
        4 => {
            let sig = g
                .pick(&[
                    json!([]),
                    json!(["u8", "u8"]),
                    json!("u128"),
                    json!("Bool"),
                    json!(null),
                    json!(8),
                    json!({}),
                    json!(["string"]),
                    json!(""),
                ])
                .clone();
            let v = if sig.is_array() { json!([1]) } else { json!(1) };
            let what = format!("the type {}", sig);
            insert(sig, v);
            what
        }
        5 => {
            let v = refabi::prim_of(g, t).json();
            i["data"].as_array_mut().unwrap().push(v);
            "a value too many".into()
        }
        6 => {
            i["abi"].as_array_mut().unwrap().push(json!(TYPES[t]));
            "a value too few".into()
        }
        7 => {
            let f = *g.pick(&["abi", "data"]);
            i.as_object_mut().unwrap().remove(f);
            format!("no {}", f)
        }
        _ => {
            let f = *g.pick(&["abi", "data"]);
            i[f] = g.pick(&[json!(null), json!("u8"), json!(3), json!({})]).clone();
            format!("{} = {}", f, i[f])
        }
    }
}

/// Whatever has no encoding is an error, not a panic and not some other encoding.
fn bad_inputdata_case(g: &mut Ctx) -> R {
    let mut i = input(g, 4).json();
    let what = spoil(g, &mut i);
    let text = i.to_string();
    g.mix(text.as_bytes());
    g.describe(format!("{}: {}", what, text));
    g.nontrivial = true;
    let enc = api("encode_inputdata", &text, json::encode_inputdata)?;
    check!(enc.is_err(), "bad-inputdata-accepted", "{} ({}) is encoded as {:?}", text, what, enc);
    if let Some(f) = what.strip_prefix("no ") {
        let missing = JsonError::MissingField { field_name: f.to_string() };
        check!(enc == Err(missing), "missing-field", "{} gives {:?}", text, enc);
    }
    Ok(())
}

/// A call or a spawn: its JSON (with the input data in one of the two forms), its encoding, and
/// its JSON after decoding.
pub struct Msg {
    pub json: Json,
    pub bytes: Vec<u8>,
    back: Json,
    pub call: bool,
}

/// With `objects`, the input data is never given in its encoded form.
pub fn msg(g: &mut Ctx, objects: bool) -> Msg {
    let call = g.flip();
    let data = small_input(g);
    let form = |g: &mut Ctx, i: &Input| -> Json {
        if objects || g.flip() {
            i.json()
        } else {
            json!(hex_in(g, &encode_all(&i.vals)))
        }
    };
    let version = g.int(16) as u16;
    if call {
        let verify = small_input(g);
        let tx = Transaction {
            version,
            target: gens::addr(g),
            func_name: gens::string(g, 255),
            verifydata: encode_all(&verify.vals),
            calldata: encode_all(&data.vals),
        };
        Msg {
            json: json!({
                "version": version,
                "target": hex_in(g, &tx.target.0),
                "func_name": tx.func_name,
                "verifydata": form(g, &verify),
                "calldata": form(g, &data),
            }),
            back: json!({
                "version": version,
                "target": upper(&tx.target.0),
                "func_name": tx.func_name,
                "verifydata": verify.back(),
                "calldata": data.back(),
            }),
            bytes: refcodec::transaction(&tx),
            call,
        }
    } else {
        let sp = SpawnAccount {
            version,
            ctor_name: gens::string(g, 255),
            account: Account::new(gens::template_addr(g), gens::string(g, 255)),
            calldata: encode_all(&data.vals),
        };
        let template = sp.template_addr().0;
        Msg {
            json: json!({
                "version": version,
                "template": hex_in(g, &template),
                "name": sp.account.name,
                "ctor_name": sp.ctor_name,
                "calldata": form(g, &data),
            }),
            back: json!({
                "version": version,
                "template": upper(&template),
                "name": sp.account.name,
                "ctor_name": sp.ctor_name,
                "calldata": data.back(),
            }),
            bytes: refcodec::spawn(&sp),
            call,
        }
    }
}

fn messages_case(g: &mut Ctx) -> R {
    let m = msg(g, false);
    let text = m.json.to_string();
    g.mix(text.as_bytes());
    g.describe(text.clone());
    g.label(if m.call { "call" } else { "spawn" });
    g.nontrivial = true;
    let data = json!({ "data": hex_in(g, &m.bytes) }).to_string();
    let (enc, dec) = if m.call {
        let raw = api("encode_call_raw", &text, json::encode_call_raw)?;
        let enc = api("encode_call", &text, json::encode_call)?;
        let wrapped = raw.as_ref().map(|b| json!({ "data": upper(b) })).map_err(|e| e.to_string());
        check!(
            enc.as_ref().map(Json::clone).map_err(|e| e.to_string()) == wrapped,
            "call-forms",
            "encode_call gives {:?}, encode_call_raw {:?}",
            enc,
            wrapped
        );
        (raw, api("decode_call", &data, json::decode_call)?)
    } else {
        (api("encode_spawn", &text, json::encode_spawn)?, api("decode_spawn", &data, json::decode_spawn)?)
    };
    check!(
        enc.as_ref() == Ok(&m.bytes),
        "message-encoded",
        "{} is encoded as {:?} instead of {}",
        text,
        enc.map(|b| hex(&b)),
        hex(&m.bytes)
    );
    check!(dec == Ok(m.back.clone()), "message-decoded", "{} is decoded as {:?} instead of {}", hex(&m.bytes), dec, m.back);
    Ok(())
}

/// Spoils a field: its name, and whether it is missing now.
pub fn spoil_msg(g: &mut Ctx, m: &mut Msg) -> (&'static str, bool) {
    let fields: &[&'static str] = if m.call {
        &["version", "target", "func_name", "verifydata", "calldata"]
    } else {
        &["version", "template", "name", "ctor_name", "calldata"]
    };
    let f = *g.pick(fields);
    let mut missing = false;
    if g.one_in(5) {
        m.json.as_object_mut().unwrap().remove(f);
        missing = true;
    } else {
        m.json[f] = match f {
            "version" => g.pick(&[json!(65536), json!(-1), json!("1"), json!(1.5), json!(null), json!([0]), json!(1u64 << 32)]).clone(),
            "target" | "template" => misfit(g, 10),
            "calldata" | "verifydata" => match g.draw(4) {
                0 => {
                    let n = 256 + g.below(300);
                    let b = g.bytes(n);
                    json!(upper(&b))
                }
                1 => {
                    // each value takes at least 9 bytes
                    let n = 29 + g.below(20);
                    let vals: Vec<u64> = (0..n).map(|_| u64::MAX - g.int(60)).collect();
                    json!({"abi": vec!["u64"; n], "data": vals})
                }
                2 => g.pick(&[json!(null), json!(5), json!([]), json!("A"), json!("0x10"), json!("zz"), json!({})]).clone(),
                _ => {
                    let mut i = input(g, 4).json();
                    spoil(g, &mut i);
                    i
                }
            },
            _ => {
                if g.flip() {
                    let n = 256 + g.below(300);
                    json!("x".repeat(n))
                } else {
                    g.pick(&[json!(null), json!(5), json!(["a"]), json!({})]).clone()
                }
            }
        };
    }
    (f, missing)
}

fn bad_messages_case(g: &mut Ctx) -> R {
    let mut m = msg(g, false);
    let (f, missing) = spoil_msg(g, &mut m);
    let text = m.json.to_string();
    g.mix(text.as_bytes());
    g.describe(text.clone());
    g.label(f);
    g.nontrivial = true;
    let enc = if m.call {
        let enc = api("encode_call", &text, json::encode_call)?;
        check!(enc.is_err(), "bad-message-accepted", "{} is encoded as {:?}", text, enc);
        api("encode_call_raw", &text, json::encode_call_raw)?
    } else {
        api("encode_spawn", &text, json::encode_spawn)?
    };
    check!(enc.is_err(), "bad-message-accepted", "{} is encoded as {:?}", text, enc);
    if missing {
        check!(enc == Err(JsonError::MissingField { field_name: f.to_string() }), "missing-field", "{} gives {:?}", text, enc);
    }
    Ok(())
}

fn logs_json(logs: &[ReceiptLog]) -> Json {
    logs.iter().map(|l| json!({ "data": String::from_utf8_lossy(l.as_bytes()) })).collect()
}

fn gas_json(gas: &Gas) -> Json {
    if gas.is_some() {
        json!(gas.unwrap())
    } else {
        json!(-1)
    }
}

fn touched_json(set: &std::collections::HashSet<Address>) -> Json {
    let mut v: Vec<String> = set.iter().map(|a| upper(&a.0)).collect();
    v.sort();
    json!(v)
}

fn receipt_json(r: &Receipt) -> Json {
    let ty = match r {
        Receipt::Deploy(_) => "deploy-template",
        Receipt::Spawn(_) => "spawn-account",
        Receipt::Call(_) => "call-account",
    };
    if !r.success() {
        let mut j = match r.error() {
            RuntimeError::OOG => json!({"err_type": "oog"}),
            RuntimeError::TemplateNotFound(t) => json!({"err_type": "template-not-found", "template_addr": upper(&t.0)}),
            RuntimeError::AccountNotFound(a) => json!({"err_type": "account-not-found", "account_addr": upper(&a.0)}),
            RuntimeError::CompilationFailed { target, template, msg } => {
                json!({"err_type": "compilation-failed", "template_addr": upper(&template.0), "account_addr": upper(&target.0), "message": msg})
            }
            RuntimeError::InstantiationFailed { target, template, msg } => {
                json!({"err_type": "instantiation-failed", "template_addr": upper(&template.0), "account_addr": upper(&target.0), "message": msg})
            }
            RuntimeError::FuncNotFound { target, template, func } => {
                json!({"err_type": "function-not-found", "template_addr": upper(&template.0), "account_addr": upper(&target.0), "func": func})
            }
            RuntimeError::FuncFailed { target, template, func, msg } => {
                json!({"err_type": "function-failed", "template_addr": upper(&template.0), "account_addr": upper(&target.0), "func": func, "message": msg})
            }
            RuntimeError::FuncNotCtor { template, func } => {
                json!({"err_type": "function-not-ctor", "template_addr": upper(&template.0), "func": func})
            }
            RuntimeError::FuncNotAllowed { target, template, func, msg } => {
                json!({"err_type": "function-not-allowed", "template_addr": upper(&template.0), "account_addr": upper(&target.0), "func": func, "message": msg})
            }
            RuntimeError::FuncInvalidSignature { target, template, func } => {
                json!({"err_type": "function-invalid-signature", "template_addr": upper(&template.0), "account_addr": upper(&target.0), "func": func})
            }
        };
        j["type"] = json!(ty);
        j["success"] = json!(false);
        j["logs"] = logs_json(r.logs());
        return j;
    }
    match r {
        Receipt::Deploy(r) => json!({
            "type": ty, "success": true,
            "addr": upper(&r.addr.as_ref().unwrap().0),
            "gas_used": gas_json(&r.gas_used),
            "logs": logs_json(&r.logs),
        }),
        Receipt::Spawn(r) => json!({
            "type": ty, "success": true,
            "account": upper(&r.account_addr.as_ref().unwrap().0),
            "state": upper(&r.init_state.as_ref().unwrap().0),
            "returndata": upper(r.returndata.as_ref().unwrap()),
            "gas_used": gas_json(&r.gas_used),
            "touched_accounts": touched_json(&r.touched_accounts),
            "logs": logs_json(&r.logs),
        }),
        Receipt::Call(r) => json!({
            "type": ty, "success": true,
            "new_state": upper(&r.new_state.as_ref().unwrap().0),
            "returndata": upper(r.returndata.as_ref().unwrap()),
            "gas_used": gas_json(&r.gas_used),
            "touched_accounts": touched_json(&r.touched_accounts),
            "logs": logs_json(&r.logs),
        }),
    }
}

/// (The touched accounts are a set: their order has no meaning here.)
fn sorted(mut j: Json) -> Json {
    if let Some(a) = j.get_mut("touched_accounts").and_then(|a| a.as_array_mut()) {
        a.sort_by_key(|x| x.to_string());
    }
    j
}

fn receipts_case(g: &mut Ctx) -> R {
    let r = gens::receipt(g, 255);
    let bytes = r.encode_to_vec();
    g.mix(&bytes);
    let expected = receipt_json(&r);
    g.describe(format!("{:.300}", expected.to_string()));
    g.label(expected["err_type"].as_str().unwrap_or("success"));
    g.nontrivial = true;
    let data = json!({ "data": hex_in(g, &bytes) }).to_string();
    let dec = api("decode_receipt", &data, json::decode_receipt)?;
    check!(
        dec.as_ref().map(|j| sorted(j.clone())) == Ok(expected.clone()),
        "receipt-decoded",
        "{} is decoded as {:?} instead of {}",
        hex(&bytes),
        dec,
        expected
    );
    Ok(())
}

fn mutate_text(g: &mut Ctx, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    super::codec::mutate(g, &mut b);
    String::from_utf8_lossy(&b).into_owned()
}

/// Anything at all: an answer or an error. (The binary input data within a decodable call or
/// spawn is trusted, as documented, so these are given undecodable transactions only.)
fn junk_case(g: &mut Ctx) -> R {
    let text = match g.draw(5) {
        0 => {
            let m = msg(g, false);
            mutate_text(g, &m.json.to_string())
        }
        1 => {
            let i = input(g, 4);
            mutate_text(g, &i.json().to_string())
        }
        2 => {
            let mut b = gens::receipt(g, 255).encode_to_vec();
            super::codec::mutate(g, &mut b);
            json!({ "data": hex_in(g, &b) }).to_string()
        }
        3 => gens::string(g, 60),
        _ => g
            .pick(&["", "{", "[]", "null", "{}", "0", "\"\"", "{\"data\":1}", "{\"data\":\"A\"}", "{\"data\":\"\"}", "[[[[[", "{\"data\":null}"])
            .to_string(),
    };
    g.mix(text.as_bytes());
    g.describe(text.clone());
    g.nontrivial = !text.is_empty();
    let mut ok = api("encode_inputdata", &text, json::encode_inputdata)?.is_ok();
    ok |= api("encode_call", &text, json::encode_call)?.is_ok();
    ok |= api("encode_spawn", &text, json::encode_spawn)?.is_ok();
    ok |= api("decode_receipt", &text, json::decode_receipt)?.is_ok();
    g.label_if(ok, "accepted");
    let bytes = data_of(&text);
    if bytes.as_ref().map_or(true, |b| Transaction::decode_bytes(b).is_err()) {
        let r = api("decode_call", &text, json::decode_call)?;
        check!(r.is_err(), "junk-call", "{} is a call: {:?}", text, r);
    }
    if bytes.as_ref().map_or(true, |b| SpawnAccount::decode_bytes(b).is_err()) {
        let r = api("decode_spawn", &text, json::decode_spawn)?;
        check!(r.is_err(), "junk-spawn", "{} is a spawn: {:?}", text, r);
    }
    if bytes.is_none() {
        let r = api("decode_inputdata", &text, json::decode_inputdata)?;
        check!(r.is_err(), "junk-inputdata", "{} is input data: {:?}", text, r);
    }
    Ok(())
}

/// The bytes of a {"data": hex}. (What follows the first JSON value isn't looked at.)
fn data_of(text: &str) -> Option<Vec<u8>> {
    let mut stream = serde_json::Deserializer::from_str(text).into_iter::<Json>();
    let j = stream.next()?.ok()?;
    let s = j.get("data")?.as_str()?;
    if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    Some((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
}

pub fn x03() -> Property {
    Property {
        id: "X03",
        level: "exploration",
        rule: "Input data of up to 8 values of all JSON types and flat arrays, calls and spawns with either form of input data, and receipts of all kinds are encoded and decoded through the JSON API and compared with reference encoders and a reference rendering; and the same spoiled in one place (a value out of range or of another type, a missing or malformed field, too long a name, too much data, mismatching lengths), or at random, which must give an error. Non-trivial: all but empty or single-valued inputs.",
        assumptions: &[
            "the binary input data inside a decodable transaction is trusted by decode_call and decode_spawn (the ABI decoder documents that it aborts on malformed data)",
            "arrays of arrays aren't supported by the ABI decoder and aren't generated",
            "the type of an empty array isn't encoded; it decodes as null",
        ],
        suites: vec![
            Suite { name: "inputdata", quick: 180_000, thorough: 2_000_000, chunk: 2000, case: inputdata_case },
            Suite { name: "bad_inputdata", quick: 180_000, thorough: 2_000_000, chunk: 2000, case: bad_inputdata_case },
            Suite { name: "messages", quick: 120_000, thorough: 1_000_000, chunk: 1000, case: messages_case },
            Suite { name: "bad_messages", quick: 120_000, thorough: 1_000_000, chunk: 1000, case: bad_messages_case },
            Suite { name: "receipts", quick: 90_000, thorough: 800_000, chunk: 500, case: receipts_case },
            Suite { name: "junk", quick: 180_000, thorough: 2_000_000, chunk: 2000, case: junk_case },
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// X04
// ---------------------------------------------------------------------------------------------

/// A buffer as JavaScript sees it.
struct Buf(*mut u8);

impl Buf {
    fn header(&self) -> (u32, u32) {
        let h = unsafe { std::slice::from_raw_parts(self.0, 8) };
        let be = |b: &[u8]| u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
        (be(&h[..4]), be(&h[4..]))
    }

    fn check(&self, what: &str, len: Option<usize>) -> R {
        let n = unsafe { wasm::wasm_buffer_length(self.0) };
        let data = unsafe { wasm::wasm_buffer_data(self.0) };
        let (length, capacity) = self.header();
        check!(n >= 0 && length == n as u32, "buffer-length", "{}: wasm_buffer_length gives {}, the header {}", what, n, length);
        check!(capacity >= length, "buffer-capacity", "{}: capacity {} of {} bytes", what, capacity, length);
        check!(data as usize == self.0 as usize + 8, "buffer-data", "{}: the data is at {:?} of {:?}", what, data, self.0);
        if let Some(len) = len {
            check!(n as usize == len, "buffer-length", "{}: {} bytes instead of {}", what, n, len);
        }
        Ok(())
    }

    fn data(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(wasm::wasm_buffer_data(self.0), wasm::wasm_buffer_length(self.0) as usize) }
    }
}

type WasmFn = unsafe extern "C" fn(*mut u8) -> *mut u8;
type JsonFn = fn(&str) -> Result<Vec<u8>, JsonError>;

fn as_text(r: Result<Json, JsonError>) -> Result<Vec<u8>, JsonError> {
    r.map(|j| j.to_string().into_bytes())
}

fn fun(k: u64) -> (&'static str, WasmFn, JsonFn) {
    match k {
        0 => ("wasm_encode_inputdata", wasm::wasm_encode_inputdata, |s| as_text(json::encode_inputdata(s))),
        1 => ("wasm_decode_inputdata", wasm::wasm_decode_inputdata, |s| as_text(json::decode_inputdata(s))),
        2 => ("wasm_decode_receipt", wasm::wasm_decode_receipt, |s| as_text(json::decode_receipt(s))),
        3 => ("wasm_encode_spawn", wasm::wasm_encode_spawn, json::encode_spawn),
        4 => ("wasm_decode_spawn", wasm::wasm_decode_spawn, |s| as_text(json::decode_spawn(s))),
        5 => ("wasm_encode_call", wasm::wasm_encode_call, json::encode_call_raw),
        _ => ("wasm_decode_call", wasm::wasm_decode_call, |s| as_text(json::decode_call(s))),
    }
}

/// An input of the function; one of five is spoiled.
fn wasm_input(g: &mut Ctx, k: u64) -> Vec<u8> {
    let data = |g: &mut Ctx, b: &[u8]| json!({ "data": hex_in(g, b) }).to_string();
    let text = match k {
        0 => {
            let mut i = input(g, 5).json();
            if g.one_in(4) {
                spoil(g, &mut i);
            }
            i.to_string()
        }
        1 => {
            let i = input(g, 5);
            data(g, &encode_all(&i.vals))
        }
        2 => {
            let b = gens::receipt(g, 255).encode_to_vec();
            data(g, &b)
        }
        _ => {
            let mut m = msg(g, false);
            while m.call != (k >= 5) {
                m = msg(g, false);
            }
            if k % 2 == 1 {
                m.json.to_string()
            } else {
                data(g, &m.bytes)
            }
        }
    };
    let mut text = text.into_bytes();
    if g.one_in(4) {
        match g.draw(4) {
            0 => {
                let n = g.below(text.len() + 1);
                text.truncate(n)
            }
            1 => {
                // not UTF-8
                let n = g.below(text.len() + 1);
                text.insert(n, *g.pick(&[0x80, 0xc3, 0xff, 0xf8]));
            }
            2 => text = vec![b'{'; g.below(20)],
            _ => {
                let n = 1 + g.below(text.len());
                text.drain(..n);
            }
        }
    }
    text
}

fn wasm_case(g: &mut Ctx) -> R {
    // a few buffers are alive at a time, and freed in any order
    let mut live: Vec<(Buf, Vec<u8>, String)> = vec![];
    let steps = 1 + g.below(6);
    let (mut ok, mut err) = (0, 0);
    for _ in 0..steps {
        let k = g.draw(7);
        let (what, f, reference) = fun(k);
        let text = wasm_input(g, k);
        g.mix(&text);
        g.describe(format!("{} of {:.200}", what, String::from_utf8_lossy(&text)));
        let buf = Buf(wasm::wasm_alloc(text.len() as i32));
        buf.check("wasm_alloc", Some(text.len()))?;
        check!(buf.data().iter().all(|b| *b == 0), "buffer-zero", "a new buffer isn't zeroed");
        buf.data().copy_from_slice(&text);
        let out = match catch_unwind(AssertUnwindSafe(|| unsafe { f(buf.0) })) {
            Ok(p) => Buf(p),
            Err(_) => {
                return fail(
                    "wasm-panic",
                    format!("{} of {:.300} panics: {}", what, String::from_utf8_lossy(&text), crate::runner::take_last_panic().unwrap_or_default()),
                )
            }
        };
        out.check(what, None)?;
        let got = out.data().to_vec();
        let mut expected = vec![];
        match std::str::from_utf8(&text).map(|s| reference(s)) {
            Ok(Ok(b)) => {
                ok += 1;
                expected.push(1);
                expected.extend(b);
                if k == 2 {
                    // the set of touched accounts may come in any order
                    let parse = |b: &[u8]| serde_json::from_slice::<Json>(b).ok().map(sorted);
                    check!(got[0] == 1 && parse(&got[1..]) == parse(&expected[1..]), "wasm-result", "{} gives {}", what, hex(&got));
                    expected = got.clone();
                }
            }
            Ok(Err(e)) => {
                err += 1;
                expected.push(0);
                expected.extend(e.to_string().into_bytes());
            }
            Err(_) => {
                err += 1;
                g.label("not-utf8");
                check!(
                    got.len() > 1 && got[0] == 0 && std::str::from_utf8(&got[1..]).is_ok(),
                    "wasm-not-utf8",
                    "{} of bytes that aren't UTF-8 gives {}",
                    what,
                    hex(&got)
                );
                expected = got.clone();
            }
        }
        check!(got == expected, "wasm-result", "{} of {:.300} gives {} instead of {}", what, String::from_utf8_lossy(&text), hex(&got), hex(&expected));
        live.push((buf, text, format!("input of {}", what)));
        live.push((out, expected, format!("result of {}", what)));
        for _ in 0..g.below(3) {
            if !live.is_empty() {
                let n = g.below(live.len());
                let (b, _, _) = live.remove(n);
                unsafe { wasm::wasm_free(b.0) };
            }
        }
        for (b, content, what) in &live {
            b.check(what, Some(content.len()))?;
            check!(b.data() == &content[..], "buffer-changed", "the {} changed to {}", what, hex(b.data()));
        }
    }
    for (b, _, _) in live {
        unsafe { wasm::wasm_free(b.0) };
    }
    g.label_if(ok > 0, "ok");
    g.label_if(err > 0, "error");
    g.nontrivial = true;
    Ok(())
}

pub fn x04() -> Property {
    Property {
        id: "X04",
        level: "exploration",
        rule: "Sequences of up to 6 calls of the seven wasm_encode_*/wasm_decode_* functions over buffers from wasm_alloc, with generated valid, spoiled, truncated and non-UTF-8 inputs, several buffers being alive at a time and freed in any order. After every call each live buffer's header, length and contents are compared with the model; results are compared with the JSON API. Non-trivial: all.",
        assumptions: &["the functions run natively, with 64-bit pointers, not in a Wasm engine", "binary input data inside of transactions is well-formed (see X03)"],
        suites: vec![Suite { name: "buffers", quick: 120_000, thorough: 1_000_000, chunk: 1000, case: wasm_case }],
    }
}
