//! F01: the C API against the Rust API.

use std::ffi::c_void;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_runtime_ffi as api;
use svm_state::GlobalState;
use svm_types::*;

use crate::check;
use crate::gens;
use crate::pbt::{fail, Ctx, Fail, R};
use crate::runner::{Property, Suite};
use crate::vm::{tokio_arc, Node, Profile, Spec};

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Done,
    Receipt(Vec<u8>),
    Error(String),
}

/// The layout of `svm_result_t` as a C program sees it.
#[repr(C)]
struct Raw {
    receipt: *mut u8,
    error: *mut u8,
    buf_size: u32,
}

/// Takes a result apart the way Rust callers do, or the way C callers do.
fn take(g: &mut Ctx, what: &str, res: api::svm_result_t) -> Result<Out, Fail> {
    let raw = unsafe { &*(&res as *const api::svm_result_t as *const Raw) };
    let len = raw.buf_size as usize;
    let bytes = |p: *mut u8| unsafe { std::slice::from_raw_parts(p, len) }.to_vec();
    check!(raw.receipt.is_null() || raw.error.is_null(), "result-both", "{}: both a receipt and an error", what);
    check!(res.is_ok() == raw.error.is_null() && res.is_err() != res.is_ok(), "result-kind", "{}: is_ok {}", what, res.is_ok());
    let out = if !raw.error.is_null() {
        check!(res.receipt().is_none(), "result-kind", "{}: a receipt of an error", what);
        match String::from_utf8(bytes(raw.error)) {
            Ok(s) if !s.is_empty() => Out::Error(s),
            other => return fail("result-error", format!("{}: the error is {:?}", what, other)),
        }
    } else if !raw.receipt.is_null() {
        let b = bytes(raw.receipt);
        check!(res.receipt() == Some(&b[..]), "result-receipt", "{}: receipt() differs", what);
        Out::Receipt(b)
    } else {
        check!(len == 0 && res.receipt().is_none() && res == api::svm_result_t::OK, "result-ok", "{}: not the plain result", what);
        Out::Done
    };
    match g.draw(5) {
        0 => unsafe {
            // As documented for C.
            let res = ManuallyDrop::new(res);
            let raw = &*(&*res as *const api::svm_result_t as *const Raw);
            libc::free(raw.receipt.cast());
            libc::free(raw.error.cast());
        },
        1 => unsafe { api::svm_free_result(res) },
        2 if !matches!(out, Out::Error(_)) => {
            let got = match res.unwrap() {
                Some(b) => Out::Receipt(b),
                None => Out::Done,
            };
            check!(got == out, "result-unwrap", "{}: unwrap gives {:?} instead of {:?}", what, got, out);
        }
        3 => {
            let copy = res.clone();
            drop(res);
            let raw = unsafe { &*(&copy as *const api::svm_result_t as *const Raw) };
            let again = match &out {
                Out::Error(s) => raw.buf_size as usize == s.len() && copy.is_err() && bytes(raw.error) == s.as_bytes(),
                Out::Receipt(b) => copy.receipt() == Some(&b[..]),
                Out::Done => copy == api::svm_result_t::OK,
            };
            check!(again, "result-clone", "{}: a clone differs", what);
        }
        _ => drop(res),
    }
    Ok(out)
}

struct Pair {
    node: Node,
    ptr: *mut c_void,
    uri: Option<String>,
}

fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| crate::runner::take_last_panic().unwrap_or_default().to_string())
}

fn create(g: &mut Ctx, uri: &Option<String>) -> Result<*mut c_void, Fail> {
    let mut ptr: *mut c_void = std::ptr::null_mut();
    let res = unsafe {
        match uri {
            Some(u) => api::svm_runtime_create(&mut ptr, u.as_ptr(), u.len() as u32),
            None => api::svm_runtime_create(&mut ptr, std::ptr::null(), 0),
        }
    };
    let out = take(g, "create", res)?;
    check!(out == Out::Done && !ptr.is_null(), "create", "creating a runtime at {:?} gives {:?}, {:?}", uri, out, ptr);
    Ok(ptr)
}

fn failing_create(g: &mut Ctx, scratch: &std::path::Path) -> R {
    let path: Vec<u8> = match g.draw(4) {
        0 => format!("sqlite://{}/nowhere/x.sqlite?mode=rwc", scratch.display()).into_bytes(),
        1 => {
            let file = scratch.join("garbage.sqlite");
            let bytes = gens::blob(g, 200);
            std::fs::write(&file, [&b"this is not a database"[..], &bytes].concat()).expect("env: write");
            format!("sqlite://{}?mode=rwc", file.display()).into_bytes()
        }
        2 => vec![0xff, 0xfe, b'x'],
        _ => format!("sqlite://{}/missing{}.sqlite", scratch.display(), g.draw(100)).into_bytes(),
    };
    let mut ptr: *mut c_void = std::ptr::null_mut();
    let res = unsafe { api::svm_runtime_create(&mut ptr, path.as_ptr(), path.len() as u32) };
    let out = take(g, "create", res)?;
    crate::runner::take_last_panic();
    g.label("failing-creates");
    check!(matches!(out, Out::Error(_)) && ptr.is_null(), "create-nothing", "creating a runtime at {:?} gives {:?}", String::from_utf8_lossy(&path), out);
    Ok(())
}

/// A call of the C API with all that it needs.
enum Act {
    Tx(u64, Vec<u8>, Vec<u8>, Vec<u8>),
    Validate(u64, Vec<u8>),
    Genesis(Address, u64, u128),
    Increase(Address, u64),
    Transfer(Address, Address, u64),
    Account(Address),
    Layer,
    Rewind(u64),
    Commit,
    /// Another runtime, made and destroyed.
    Churn,
}

impl Act {
    fn generate(g: &mut Ctx, spec: &Spec) -> Act {
        let addr = *g.pick(&spec.pool);
        match g.weighted(&[12, 3, 4, 2, 4, 3, 2, 1, 4, 2]) {
            0 => {
                let t = g.pick(&spec.templates);
                let k = g.draw(4);
                let data = if g.flip() { vec![] } else { gens::blob(g, 60) };
                let message = match k {
                    0 => t.message.clone(),
                    1 => SpawnAccount::new(0, &t.addr, &gens::string(g, 12), &t.pick_func(g, true), data).encode_to_vec(),
                    _ => {
                        let target = if g.draw(4) < 3 { t.spawned_addr() } else { addr };
                        Transaction { version: 0, target, func_name: t.pick_func(g, false), verifydata: vec![], calldata: data }.encode_to_vec()
                    }
                };
                let envelope = Envelope::new(addr, g.int(64), gens::u128(g), Gas::new(), g.int(32));
                Act::Tx(k, envelope.encode_to_vec(), message, gens::context(g).encode_to_vec())
            }
            1 => {
                let mut message = g.pick(&spec.templates).message.clone();
                if g.flip() {
                    let n = g.below(message.len());
                    message[n] ^= 1 << g.draw(8);
                }
                Act::Validate(g.draw(3), message)
            }
            2 => Act::Genesis(addr, g.int(64), gens::u128(g)),
            3 => Act::Increase(addr, g.int(16)),
            4 => Act::Transfer(addr, *g.pick(&spec.pool), g.int(20)),
            5 => Act::Account(addr),
            6 => Act::Layer,
            7 => Act::Rewind(g.draw(2)),
            8 => Act::Commit,
            _ => Act::Churn,
        }
    }

    /// The result and what was written to output parameters.
    fn run(&self, ptr: *mut c_void) -> (Out, Vec<u8>) {
        let out = |res: api::svm_result_t| {
            let raw = unsafe { &*(&res as *const api::svm_result_t as *const Raw) };
            let bytes = |p: *mut u8| unsafe { std::slice::from_raw_parts(p, raw.buf_size as usize) }.to_vec();
            if !raw.error.is_null() {
                Out::Error(String::from_utf8_lossy(&bytes(raw.error)).into_owned())
            } else if !raw.receipt.is_null() {
                Out::Receipt(bytes(raw.receipt))
            } else {
                Out::Done
            }
        };
        unsafe {
            match self {
                Act::Tx(k, e, m, c) => {
                    let n = m.len() as u32;
                    let f = [api::svm_deploy, api::svm_spawn, api::svm_call, api::svm_verify][*k as usize];
                    (out(f(ptr, e.as_ptr(), m.as_ptr(), n, c.as_ptr())), vec![])
                }
                Act::Validate(k, m) => {
                    let f = [api::svm_validate_deploy, api::svm_validate_spawn, api::svm_validate_call][*k as usize];
                    (out(f(ptr, m.as_ptr(), m.len() as u32)), vec![])
                }
                Act::Genesis(a, b, c) => (out(api::svm_create_genesis_account(ptr, a.0.as_ptr(), *b, (c >> 64) as u64, *c as u64)), vec![]),
                Act::Increase(a, n) => (out(api::svm_increase_balance(ptr, a.0.as_ptr(), *n)), vec![]),
                Act::Transfer(a, b, n) => (out(api::svm_transfer(ptr, a.0.as_ptr(), b.0.as_ptr(), *n)), vec![]),
                Act::Account(a) => {
                    let mut got = api::svm_account::default();
                    let r = out(api::svm_get_account(ptr, a.0.as_ptr(), &mut got));
                    (r, format!("{:?}", got).into_bytes())
                }
                Act::Layer => {
                    let (mut hash, mut layer) = ([0u8; 32], 0u64);
                    let r = out(api::svm_layer_info(ptr, hash.as_mut_ptr(), &mut layer));
                    (r, [&hash[..], &layer.to_le_bytes()].concat())
                }
                Act::Rewind(l) => (out(api::svm_rewind(ptr, *l)), vec![]),
                Act::Commit => (out(api::svm_commit(ptr)), vec![]),
                Act::Churn => {
                    let mut other: *mut c_void = std::ptr::null_mut();
                    let a = out(api::svm_runtime_create(&mut other, std::ptr::null(), 0));
                    if a != Out::Done || other.is_null() || other == ptr {
                        return (a, vec![]);
                    }
                    (out(api::svm_runtime_destroy(other)), vec![])
                }
            }
        }
    }
}

/// Runs a history on a new runtime in memory, which it destroys, and gives all results.
fn run_all(acts: &[Act]) -> Vec<(Out, Vec<u8>)> {
    let mut ptr: *mut c_void = std::ptr::null_mut();
    let res = unsafe { api::svm_runtime_create(&mut ptr, std::ptr::null(), 0) };
    if res.is_err() || ptr.is_null() {
        return vec![];
    }
    let mut all: Vec<_> = vec![];
    for a in acts {
        all.push(a.run(ptr));
    }
    let gone = api::svm_runtime_destroy(ptr);
    all.push((if gone.is_ok() { Out::Done } else { Out::Error("destroying".to_string()) }, vec![]));
    all
}

/// Histories on runtimes of several threads: each as if it were alone.
fn threads_case(g: &mut Ctx) -> R {
    let out = take(g, "init", api::svm_init())?;
    check!(out == Out::Done, "init", "svm_init gives {:?}", out);
    let spec = Spec::generate(g, PROFILE, 2);
    let n = 2 + g.below(3);
    let histories: Vec<Vec<Act>> = (0..n)
        .map(|_| {
            let len = 4 + g.below(20);
            let mut acts: Vec<Act> = spec.templates.iter().map(|t| Act::Tx(0, Envelope::new(spec.pool[0], 0, 0, Gas::new(), 0).encode_to_vec(), t.message.clone(), gens::context(g).encode_to_vec())).collect();
            acts.extend((0..len).map(|_| Act::generate(g, &spec)));
            acts
        })
        .collect();
    let base = api::svm_runtimes_count();
    let alone: Vec<_> = histories.iter().map(|h| run_all(h)).collect();
    let handles: Vec<_> = histories.into_iter().map(|h| std::thread::spawn(move || run_all(&h))).collect();
    let together: Vec<_> = handles.into_iter().map(|h| h.join().ok()).collect();
    crate::runner::take_last_panic();
    let ok = alone.iter().flatten().filter(|(o, _)| matches!(o, Out::Receipt(_))).count();
    g.nontrivial = ok >= 4;
    g.describe(format!("{} threads, {:?} calls, {} receipts", n, alone.iter().map(|a| a.len()).collect::<Vec<_>>(), ok));
    g.mix(format!("{:?}", alone).as_bytes());
    for (i, (a, t)) in alone.iter().zip(&together).enumerate() {
        let t = match t {
            Some(t) => t,
            None => return fail("thread-panic", format!("a call of thread {} panicked", i)),
        };
        check!(!a.is_empty() && a.len() == t.len(), "thread-create", "{} results in thread {} instead of {}", t.len(), i, a.len());
        for (k, (x, y)) in a.iter().zip(t).enumerate() {
            check!(x == y, "thread-differs", "call {} of thread {} gives {:?}, alone {:?}", k, i, y, x);
        }
    }
    let now = api::svm_runtimes_count();
    check!(now == base, "count", "{} runtimes instead of {} after all were destroyed", now, base);
    Ok(())
}

fn in_memory() -> Node {
    let rt = tokio_arc();
    let gs = rt.block_on(GlobalState::in_memory(GenesisConfig::mainnet()));
    let vm = Runtime::new(rt.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()));
    Node { rt, gs, vm, path: Default::default() }
}

static STARTED: AtomicBool = AtomicBool::new(false);

const PROFILE: Profile = super::runtime::MIXED;

fn ffi_case(g: &mut Ctx) -> R {
    if !STARTED.swap(true, SeqCst) {
        let mut ptr: *mut c_void = std::ptr::null_mut();
        let res = unsafe { api::svm_runtime_create(&mut ptr, std::ptr::null(), 0) };
        let out = take(g, "create", res)?;
        check!(matches!(out, Out::Error(_)) && ptr.is_null(), "before-init", "creating a runtime before svm_init gives {:?}", out);
    }
    let out = take(g, "init", api::svm_init())?;
    check!(out == Out::Done, "init", "svm_init gives {:?}", out);

    let spec = Spec::generate(g, PROFILE, 2);
    let scratch = g.scratch();
    let base = api::svm_runtimes_count();
    let mut pairs: Vec<Pair> = vec![];
    let mut dead: Vec<*mut c_void> = vec![];
    let mut log: Vec<String> = vec![];
    let steps = 6 + g.below(30);
    let mut receipts = 0;
    let mut accounts: Vec<Address> = spec.pool.clone();
    let mut serial = 0;
    let result = (|| -> R {
        for _ in 0..steps {
            if pairs.is_empty() || pairs.len() < 3 && g.one_in(8) {
                serial += 1;
                let (node, uri) = if g.flip() {
                    (in_memory(), None)
                } else {
                    let file = scratch.join(format!("ffi{}.sqlite", serial));
                    (Node::open(&scratch.join(format!("rust{}.sqlite", serial))), Some(format!("sqlite://{}?mode=rwc", file.display())))
                };
                let ptr = create(g, &uri)?;
                check!(pairs.iter().all(|p| p.ptr != ptr), "create", "two runtimes at one address");
                log.push(format!("create {:?}", uri.is_some()));
                dead.retain(|d| *d != ptr);
                pairs.push(Pair { node, ptr, uri });
                let n = api::svm_runtimes_count();
                check!(n == base + pairs.len() as u64, "count", "{} runtimes instead of {} after {:?}", n - base, pairs.len(), log);
                continue;
            }
            if g.one_in(24) {
                // Something that is no database: an error, and the next one works.
                failing_create(g, &scratch)?;
                log.push("failing create".to_string());
                let n = api::svm_runtimes_count();
                check!(n == base + pairs.len() as u64, "count", "{} runtimes instead of {} after {:?}", n - base, pairs.len(), log);
                let out = take(g, "init", api::svm_init())?;
                check!(out == Out::Done, "init", "svm_init gives {:?}", out);
                continue;
            }
            let i = g.below(pairs.len());
            let bad = if g.one_in(16) {
                Some(match g.draw(3) {
                    0 => std::ptr::null_mut(),
                    1 if !dead.is_empty() => *g.pick(&dead),
                    _ => (pairs[i].ptr as usize + 8) as *mut c_void,
                })
            } else {
                None
            };
            // A pointer that is not one of a runtime: an error and nothing else.
            let ptr = bad.unwrap_or(pairs[i].ptr);
            let node = &mut pairs[i].node;
            let addr = *g.pick(&accounts);
            let (what, rust, ffi): (String, Result<Out, String>, Out) = match g.weighted(&[2, 4, 8, 3, 4, 4, 2, 4, 4, 3, 2, 2, 3, 1, 3]) {
                k @ 0..=3 => {
                    let t = g.pick(&spec.templates);
                    let envelope = Envelope::new(*g.pick(&accounts), g.int(64), gens::u128(g), if g.one_in(8) { Gas::with(1 + g.int(40)) } else { Gas::new() }, g.int(32));
                    let context = gens::context(g);
                    let data = if g.flip() { vec![] } else { gens::blob(g, 60) };
                    let func = |g: &mut Ctx, ctor| if g.one_in(8) { "nope".to_string() } else { t.pick_func(g, ctor) };
                    let (name, mut message) = match k {
                        0 => ("deploy", t.message.clone()),
                        1 => {
                            let ctor = func(g, true);
                            let name = gens::string(g, 12);
                            ("spawn", SpawnAccount::new(0, &t.addr, &name, &ctor, data).encode_to_vec())
                        }
                        _ => {
                            let target = if g.draw(4) < 3 { t.spawned_addr() } else { addr };
                            let f = func(g, false);
                            (if k == 2 { "call" } else { "verify" }, Transaction { version: 0, target, func_name: f, verifydata: vec![], calldata: data }.encode_to_vec())
                        }
                    };
                    if g.one_in(12) {
                        let n = g.below(message.len());
                        message.truncate(n);
                    }
                    let (e, c) = (envelope.encode_to_vec(), context.encode_to_vec());
                    let (m, n) = (message.as_ptr(), message.len() as u32);
                    let res = unsafe {
                        match k {
                            0 => api::svm_deploy(ptr, e.as_ptr(), m, n, c.as_ptr()),
                            1 => api::svm_spawn(ptr, e.as_ptr(), m, n, c.as_ptr()),
                            2 => api::svm_call(ptr, e.as_ptr(), m, n, c.as_ptr()),
                            _ => api::svm_verify(ptr, e.as_ptr(), m, n, c.as_ptr()),
                        }
                    };
                    let ffi = take(g, name, res)?;
                    let rust = if bad.is_some() {
                        Err(String::new())
                    } else {
                        quietly(|| {
                            let vm = &mut node.vm;
                            Out::Receipt(match k {
                                0 => vm.deploy(&envelope, &message, &context).encode_to_vec(),
                                1 => vm.spawn(&envelope, &message, &context).encode_to_vec(),
                                2 => vm.call(&envelope, &message, &context).encode_to_vec(),
                                _ => vm.verify(&envelope, &message, &context).encode_to_vec(),
                            })
                        })
                    };
                    receipts += rust.is_ok() as u32;
                    (format!("{} of {:?}", name, super::hex(&message)), rust, ffi)
                }
                4 => {
                    let t = g.pick(&spec.templates);
                    let k = g.draw(3);
                    let mut message = match k {
                        0 => t.message.clone(),
                        1 => SpawnAccount::new(0, &t.addr, "x", "y", gens::blob(g, 20)).encode_to_vec(),
                        _ => Transaction { version: 0, target: addr, func_name: "f".into(), verifydata: vec![], calldata: gens::blob(g, 20) }.encode_to_vec(),
                    };
                    match g.draw(4) {
                        0 => {
                            let n = g.below(message.len());
                            message.truncate(n);
                        }
                        1 => {
                            let n = g.below(message.len());
                            message[n] ^= 1 << g.draw(8);
                        }
                        _ => {}
                    }
                    let (m, n) = (message.as_ptr(), message.len() as u32);
                    let res = unsafe {
                        match k {
                            0 => api::svm_validate_deploy(ptr, m, n),
                            1 => api::svm_validate_spawn(ptr, m, n),
                            _ => api::svm_validate_call(ptr, m, n),
                        }
                    };
                    let ffi = take(g, "validate", res)?;
                    let rust = if bad.is_some() {
                        Err(String::new())
                    } else {
                        quietly(|| {
                            let r = match k {
                                0 => node.vm.validate_deploy(&message),
                                1 => node.vm.validate_spawn(&message),
                                _ => node.vm.validate_call(&message),
                            };
                            match r {
                                Ok(()) => Out::Done,
                                Err(e) => Out::Error(e.to_string()),
                            }
                        })
                    };
                    (format!("validate {} {}", k, super::hex(&message)), rust, ffi)
                }
                5 => {
                    let a = gens::addr(g);
                    let (balance, counter) = (g.int(64), gens::u128(g));
                    let res = unsafe { api::svm_create_genesis_account(ptr, a.0.as_ptr(), balance, (counter >> 64) as u64, counter as u64) };
                    let ffi = take(g, "genesis account", res)?;
                    let rust = if bad.is_some() { Err(String::new()) } else { quietly(|| node.vm.create_genesis_account(&a, "", balance, counter).map(|_| Out::Done).unwrap()) };
                    if bad.is_none() {
                        accounts.push(a);
                        let got = node.vm.get_account(&a).map(|a| (a.0, a.1));
                        check!(rust.is_err() || got == Some((balance, counter)), "genesis", "a genesis account with {} and counter {} has {:?}", balance, counter, got);
                    }
                    (format!("genesis account {:?} {} {}", a, balance, counter), rust, ffi)
                }
                6 => {
                    let n = if g.flip() { g.int(64) } else { g.int(8) };
                    let ffi = take(g, "increase", unsafe { api::svm_increase_balance(ptr, addr.0.as_ptr(), n) })?;
                    let rust = if bad.is_some() { Err(String::new()) } else { quietly(|| node.vm.increase_balance(&addr, n).map(|_| Out::Done).unwrap()) };
                    (format!("increase {:?} by {}", addr, n), rust, ffi)
                }
                7 => {
                    let to = *g.pick(&accounts);
                    let have = node.vm.get_account(&addr).map_or(0, |a| a.0);
                    let n = match g.draw(4) {
                        0 => have,
                        1 => have.wrapping_add(1),
                        2 => have / 2,
                        _ => g.int(64),
                    };
                    let ffi = take(g, "transfer", unsafe { api::svm_transfer(ptr, addr.0.as_ptr(), to.0.as_ptr(), n) })?;
                    let rust = if bad.is_some() { Err(String::new()) } else { quietly(|| { node.vm.transfer(&addr, &to, n); Out::Done }) };
                    (format!("transfer {} from {:?} to {:?}", n, addr, to), rust, ffi)
                }
                8 => {
                    let before = api::svm_account { address: [7; 20], balance: 7, counter_upper_bits: 7, counter_lower_bits: 7, template_addr: [7; 20] };
                    let mut a = before;
                    let ffi = take(g, "get account", unsafe { api::svm_get_account(ptr, addr.0.as_ptr(), &mut a) })?;
                    let rust = match node.vm.get_account(&addr) {
                        Some((balance, counter, template)) if bad.is_none() => {
                            check!(
                                a.address == addr.0 && a.balance == balance && a.counter() == counter && a.template_addr == template.0 && a.counter_upper_bits == (counter >> 64) as u64,
                                "account",
                                "svm_get_account of {:?} gives {:?} instead of {} {} {:?} after {:?}",
                                addr,
                                a,
                                balance,
                                counter,
                                template,
                                log
                            );
                            g.label("accounts-read");
                            Ok(Out::Done)
                        }
                        _ => {
                            check!(format!("{:?}", a) == format!("{:?}", before), "account", "an account that isn't there is {:?}", a);
                            Err(String::new())
                        }
                    };
                    (format!("get account {:?}", addr), rust, ffi)
                }
                9 => {
                    let (mut hash, mut layer) = ([7u8; 32], 77u64);
                    let ffi = take(g, "layer info", unsafe { api::svm_layer_info(ptr, hash.as_mut_ptr(), &mut layer) })?;
                    let rust = if bad.is_some() { None } else { node.layer() };
                    let rust = match rust {
                        Some((l, s)) => {
                            check!(l == layer && s.0 == hash, "layer-info", "svm_layer_info gives {} {} instead of {} {:?} after {:?}", layer, super::hex(&hash), l, s, log);
                            Ok(Out::Done)
                        }
                        None => Err(String::new()),
                    };
                    ("layer info".to_string(), rust, ffi)
                }
                10 => {
                    let ffi = take(g, "uncommitted", unsafe { api::svm_uncommitted_changes(ptr) })?;
                    let rust = if bad.is_some() {
                        Err(String::new())
                    } else {
                        quietly(|| if node.vm.has_uncommitted_changes().unwrap() { Err(String::new()) } else { Ok(Out::Done) }).and_then(|r| r)
                    };
                    ("uncommitted changes".to_string(), rust, ffi)
                }
                11 => {
                    // Layers that don't exist are refused.
                    let last = node.layer().map(|(l, _)| l);
                    let l = match last {
                        Some(l) if !g.one_in(3) => l.saturating_sub(g.draw(3)),
                        _ if g.one_in(3) => u64::MAX - g.draw(2),
                        _ => last.map_or(0, |l| l + 1) + g.draw(3),
                    };
                    let ffi = take(g, "rewind", unsafe { api::svm_rewind(ptr, l) })?;
                    let rust = if bad.is_some() { Err(String::new()) } else { quietly(|| node.vm.rewind(Layer(l)).map(|_| Out::Done).map_err(|e| e.to_string())).and_then(|r| r) };
                    g.label_if(rust.is_ok(), "rewound");
                    (format!("rewind to {}", l), rust, ffi)
                }
                12 => {
                    let ffi = take(g, "commit", unsafe { api::svm_commit(ptr) })?;
                    let rust = if bad.is_some() { Err(String::new()) } else { quietly(|| node.vm.commit().map(|_| Out::Done).map_err(|e| e.to_string())).and_then(|r| r) };
                    ("commit".to_string(), rust, ffi)
                }
                13 => {
                    let ffi = take(g, "destroy", api::svm_runtime_destroy(ptr))?;
                    let rust = if bad.is_some() {
                        Err(String::new())
                    } else {
                        dead.push(ptr);
                        pairs.remove(i);
                        Ok(Out::Done)
                    };
                    ("destroy".to_string(), rust, ffi)
                }
                _ => {
                    // Destroyed and opened again: what was committed is there.
                    if pairs[i].uri.is_none() || bad.is_some() {
                        continue;
                    }
                    let ffi = take(g, "destroy", api::svm_runtime_destroy(ptr))?;
                    let path = pairs[i].node.path.clone();
                    pairs[i].node = Node::open(&path);
                    let uri = pairs[i].uri.clone();
                    let ptr = create(g, &uri)?;
                    dead.retain(|d| *d != ptr);
                    pairs[i].ptr = ptr;
                    g.label("restarts");
                    ("destroy and create again".to_string(), Ok(Out::Done), ffi)
                }
            };
            log.push(format!("{}: {}{} -> {}", i, what, if bad.is_some() { " (bad pointer)" } else { "" }, rust.is_ok()));
            g.label_if(bad.is_some(), "bad-pointers");
            match rust {
                Ok(out) => check!(ffi == out, "differs", "{} gives {:?}, the Rust API {:?} after {:?}", what, ffi, out, log),
                Err(e) => {
                    g.label("errors");
                    check!(matches!(ffi, Out::Error(_)), "no-error", "{} gives {:?}, the Rust API fails with {:?} after {:?}", what, ffi, e, log)
                }
            }
            let n = api::svm_runtimes_count();
            check!(n == base + pairs.len() as u64, "count", "{} runtimes instead of {} after {:?}", n.wrapping_sub(base), pairs.len(), log);
        }
        // What all runtimes hold in the end.
        for p in &pairs {
            for a in &accounts {
                let mut got = api::svm_account::default();
                let r = take(g, "get account", unsafe { api::svm_get_account(p.ptr, a.0.as_ptr(), &mut got) })?;
                let want = p.node.vm.get_account(a);
                let got = if r == Out::Done { Some((got.balance, got.counter(), TemplateAddr(got.template_addr))) } else { None };
                check!(got == want, "final-account", "account {:?} is {:?} instead of {:?} after {:?}", a, got, want, log);
            }
        }
        Ok(())
    })();
    g.describe(log.join("; "));
    g.mix(log.join("; ").as_bytes());
    g.nontrivial = receipts >= 3;
    // Leave no runtime behind for the next case.
    for p in &pairs {
        let r = take(g, "destroy", api::svm_runtime_destroy(p.ptr))?;
        if result.is_ok() {
            check!(r == Out::Done, "destroy", "destroying a runtime gives {:?}", r);
        }
    }
    result
}

pub fn f01() -> Property {
    Property {
        id: "F01",
        level: "exploration",
        rule: "Histories of 6-35 calls of all functions of the C API over up to three runtimes (in memory and on disk, destroyed and opened again), with generated templates, valid and mutated messages, accounts that exist or not, amounts around balances, and pointers that are null, stale or misplaced; each call is made through the Rust API on a second node as well, and the results, receipts (byte for byte), accounts, layers and numbers of runtimes are compared. Locations that hold no database are tried in between. In a second suite, histories are run on runtimes of two to four threads at once, and each result is compared with that of the same history run alone. Results are taken apart and freed as C programs, and as Rust programs, do. Non-trivial: at least three receipts (four in all threads together).",
        assumptions: &["pointers to messages, envelopes and outputs are valid: the API can't check them", "the behaviour of the Rust API is judged by the other properties"],
        suites: vec![
            Suite { name: "c_api", quick: 6000, thorough: 120_000, chunk: 20, case: ffi_case },
            Suite { name: "threads", quick: 800, thorough: 16_000, chunk: 20, case: threads_case },
        ],
    }
}
