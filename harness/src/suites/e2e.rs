//! E01, K04: templates written with the SDK, on a node and with the SDK's mocks.

use std::collections::{BTreeMap, HashMap};
use std::ffi::CString;
use std::path::{Path, PathBuf};

use serde_json::{json, Value as Json};
use svm_codec::Codec;
use svm_layout::{FixedLayout, Layout};
use svm_runtime::compute_account_addr;
use svm_state::AccountStorage;
use svm_types::*;

use crate::pbt::{fail, Ctx, Fail, R};
use crate::refabi::{encode_all, V};
use crate::runner::{Property, Suite};
use crate::suites::hex;
use crate::tpl::{self, Env, Func, Ret, Spec, Ty};
use crate::vm::Node;
use crate::{check, check_eq, gens};

const DIR: &str = "SVM_VERIF_TEMPLATES";

fn count(thorough: bool, wasm: bool) -> u64 {
    match (thorough, wasm) {
        (false, true) => 32,
        (false, false) => 24,
        (true, true) => 300,
        (true, false) => 200,
    }
}

/// Compiles the templates the cases of a property use.
pub fn prepare(id: &str, seed: u64, thorough: bool) {
    let wasm = match id {
        "E01" => true,
        "K04" => false,
        "L01" => return super::cli::prepare(),
        _ => return,
    };
    let root = std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from);
    let dir = root.join("target/templates").join(if wasm { "wasm" } else { "mock" });
    let n = count(thorough, wasm);
    tpl::build(&dir, seed, n, wasm);
    std::env::set_var(DIR, format!("{}:{}:{}", seed, n, dir.display()));
}

fn templates() -> (u64, u64, PathBuf) {
    let text = std::env::var(DIR).expect("env: no templates were built");
    let mut parts = text.splitn(3, ':');
    let seed = parts.next().unwrap().parse().expect("env: seed");
    let n = parts.next().unwrap().parse().expect("env: count");
    (seed, n, PathBuf::from(parts.next().unwrap()))
}

fn built(dir: &Path, k: u64, wasm: bool, spec: &Spec) -> Result<PathBuf, Fail> {
    let path = tpl::artifact(dir, k, wasm);
    if !path.exists() {
        let log = std::fs::read_to_string(dir.join(format!("t{}.log", k))).unwrap_or_default();
        return fail("template-does-not-build", format!("{}\n{}", log.chars().take(1500).collect::<String>(), spec.module()));
    }
    Ok(path)
}

// ---------------------------------------------------------------------------------------------
// E01
// ---------------------------------------------------------------------------------------------

struct Account {
    addr: Address,
    vars: Vec<Vec<V>>,
}

fn stored(node: &Node, spec: &Spec, addr: &Address) -> Result<Option<Vec<Vec<u8>>>, Fail> {
    let st = match node.rt.block_on(AccountStorage::load(node.gs.clone(), addr)) {
        Ok(s) => s,
        Err(svm_state::StorageError::NotFound { .. }) => return Ok(None),
        Err(e) => return fail("storage-error", format!("loading an account: {:?}", e)),
    };
    let mut vars = vec![];
    for i in 0..spec.sizes().len() {
        match node.rt.block_on(st.get_var_vec(i as u32)) {
            Ok(v) => vars.push(v),
            Err(e) => return fail("storage-error", format!("reading variable {}: {:?}", i, e)),
        }
    }
    Ok(Some(vars))
}

fn calldata(g: &mut Ctx, args: &[V]) -> (Vec<u8>, bool) {
    let mut data = encode_all(args);
    match g.draw(12) {
        // The last argument is missing.
        0 if !args.is_empty() => {
            data = encode_all(&args[..args.len() - 1]);
            return (data, false);
        }
        // One too many.
        1 if !args.is_empty() => V::U8(7).encode(&mut data),
        _ => {}
    }
    (data, true)
}

fn node_case(g: &mut Ctx) -> R {
    let (seed, n, dir) = templates();
    let k = g.draw(n);
    let spec = Spec::numbered(seed, k, true);
    let path = built(&dir, k, true, &spec)?;
    let code = std::fs::read(&path).expect("env: template");
    let ctors: Vec<String> = spec.funcs.iter().filter(|f| f.ctor).map(|f| f.name.clone()).collect();
    let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, &spec.sizes())));
    let template = Template::new(CodeSection::new_fixed(code.clone(), 0), data, CtorsSection::new(ctors));
    let mut message = vec![];
    template.sections().encode(&mut message);

    let scratch = g.scratch();
    let mut node = Node::open(&scratch.join("db"));
    if node.vm.validate_deploy(&message).is_err() {
        g.label("template rejected");
        return Ok(());
    }
    g.label("template accepted");
    let hash = *blake3::hash(&code).as_bytes();
    let taddr = TemplateAddr::new(&hash[..20]);
    let deployed = node.vm.deploy(&Envelope::default(), &message, &Context::default());
    check!(deployed.success, "deploy", "deploying a valid template failed: {:?}", deployed.error);

    let mut log: Vec<String> = vec![];
    let mut accounts: Vec<Account> = vec![];
    let env = spec.env();

    // The first account is spawned, others are created beside it.
    let ctor_list: Vec<&Func> = spec.funcs.iter().filter(|f| f.ctor).collect();
    let ctor = *g.pick(&ctor_list);
    let args = spec.arguments(g, ctor);
    let (data, complete) = calldata(g, &args);
    let spawn = SpawnAccount::new(0, &taddr, "a", &ctor.name, data.clone());
    let addr = compute_account_addr(&spawn);
    let r = node.vm.spawn(&Envelope::default(), &spawn.encode_to_vec(), &Context::default());
    log.push(format!("spawn by {}{:?} ({}) -> {}", ctor.name, args, hex(&data), r.success));
    let expected = if complete { spec.run(ctor, &spec.fresh(), &args, &env) } else { None };
    let tell = |log: &[String]| format!("template {}: {}\nHISTORY: {}", k, spec.module(), log.join("; "));
    let mut ran = 0;
    match expected {
        None => {
            check!(!r.success, "spawn-outcome", "a constructor that panics succeeded\n{}", tell(&log));
            check!(stored(&node, &spec, &addr)?.is_none(), "spawn-outcome", "a failed spawn left an account\n{}", tell(&log));
        }
        Some(run) => {
            check!(r.success, "spawn-outcome", "a constructor failed: {:?}\n{}", r.error, tell(&log));
            check_eq!(hex(&r.returndata.clone().unwrap_or_default()), hex(&run.ret), "returndata", "of the constructor\n{}", tell(&log));
            accounts.push(Account { addr, vars: run.vars });
            ran += 1;
        }
    }
    for i in 0..g.draw(3) {
        let addr = Address([0xA0 + i as u8; 20]);
        let ok = node.vm.create_account(&addr, taddr, "b".to_string(), 0, 0).is_ok();
        check!(ok, "create-account", "creating an account failed\n{}", tell(&log));
        accounts.push(Account { addr, vars: spec.fresh() });
    }
    if accounts.is_empty() {
        return Ok(());
    }

    let endpoints: Vec<&Func> = spec.funcs.iter().filter(|f| !f.ctor).collect();
    let (mut failed, mut changed) = (0, 0);
    for _ in 0..1 + g.size(10) {
        if g.one_in(6) {
            let _ = node.vm.commit();
            log.push("commit".to_string());
        }
        let i = g.below(accounts.len());
        let f = *g.pick(&endpoints);
        let args = spec.arguments(g, f);
        let (data, complete) = calldata(g, &args);
        let tx = Transaction { version: 0, target: accounts[i].addr, func_name: f.name.clone(), verifydata: vec![], calldata: data.clone() };
        let message = tx.encode_to_vec();
        let r = node.vm.call(&Envelope::default(), &message, &Context::default());
        log.push(format!("call {}{:?} ({}) of account {} -> {}", f.name, args, hex(&data), i, r.success));
        let expected = if complete { spec.run(f, &accounts[i].vars, &args, &env) } else { None };
        match expected {
            None => {
                check!(!r.success, "call-outcome", "an endpoint that panics succeeded\n{}", tell(&log));
                failed += 1;
            }
            Some(run) => {
                check!(r.success, "call-outcome", "an endpoint failed: {:?}\n{}", r.error, tell(&log));
                let got = r.returndata.clone().unwrap_or_default();
                check_eq!(hex(&got), hex(&run.ret), "returndata", "of the last call\n{}", tell(&log));
                if run.vars != accounts[i].vars {
                    changed += 1;
                }
                accounts[i].vars = run.vars;
                ran += 1;
            }
        }
        for (j, a) in accounts.iter().enumerate() {
            let got = stored(&node, &spec, &a.addr)?;
            let want = Some(spec.raw(&a.vars));
            check!(got == want, "storage", "account {} holds {:?} instead of {:?}\n{}", j, got, want, tell(&log));
        }
    }
    g.label_if(failed > 0, "a call panicked");
    g.label_if(changed > 0, "a call changed storage");
    if ran >= 2 && changed > 0 {
        g.nontrivial = true;
    }
    g.mix(log.join(";").as_bytes());
    g.describe(format!("template {}: {}", k, log.join("; ")));
    Ok(())
}

pub fn e01() -> Property {
    Property {
        id: "E01",
        level: "exploration",
        rule: "Templates generated as Rust source with #[template] (1-8 storage fields of all primitive types and arrays, 1-2 constructors, 1-4 endpoints with up to 5 parameters; bodies of assignments, wrapping arithmetic, casts, comparisons, branches, local variables, indexed access that can be out of range; single, array and tuple results), compiled to Wasm with the SDK and run on a node: deploy, spawn, further accounts, up to 11 calls with arbitrary arguments (some missing, some in excess), commits in between; returndata, outcome and every storage variable of every account against an interpreter of the specification. 32 templates per quick run, 300 per thorough one. Non-trivial: at least two runs succeeded and storage changed.",
        assumptions: &[
            "templates are limited to what validation accepts of compiled code: no array parameters, no 64-bit integers as results, no reading of booleans; a template that validation rejects all the same is skipped",
            "the SDK's imports of the `sm` namespace and its three-parameter svm_log are not provided by the runtime, so templates using them are not generated",
        ],
        suites: vec![Suite { name: "node", quick: 3000, thorough: 120_000, chunk: 60, case: node_case }],
    }
}

// ---------------------------------------------------------------------------------------------
// K04
// ---------------------------------------------------------------------------------------------

struct Lib(HashMap<&'static str, usize>, Vec<usize>);

type Sink = extern "C" fn(u32, *const u8, usize);

static mut SUNK: Vec<(u32, Vec<u8>)> = vec![];

extern "C" fn sink(tag: u32, data: *const u8, len: usize) {
    unsafe { SUNK.push((tag, if len == 0 { vec![] } else { std::slice::from_raw_parts(data, len).to_vec() })) }
}

fn sunk(f: impl FnOnce()) -> Vec<(u32, Vec<u8>)> {
    unsafe {
        SUNK = vec![];
        f();
        std::mem::replace(&mut SUNK, vec![])
    }
}

fn load(path: &Path, spec: &Spec) -> &'static Lib {
    static mut LIBS: Option<BTreeMap<PathBuf, Lib>> = None;
    unsafe {
        let libs = LIBS.get_or_insert_with(BTreeMap::new);
        libs.entry(path.to_path_buf()).or_insert_with(|| {
            let c = CString::new(path.to_str().unwrap()).unwrap();
            let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
            assert!(!h.is_null(), "env: dlopen {}", path.display());
            let sym = |name: &str| {
                let c = CString::new(name).unwrap();
                libc::dlsym(h, c.as_ptr()) as usize
            };
            let helpers = ["h_reset", "h_begin", "h_end", "h_meta", "h_dump"].iter().map(|n| (*n, sym(n))).collect();
            Lib(helpers, spec.funcs.iter().map(|f| sym(&f.name)).collect())
        })
    }
}

fn expected_api(f: &Func) -> Json {
    let params: Vec<Json> = f
        .args
        .iter()
        .enumerate()
        .map(|(i, (t, len))| match len {
            None => json!({"name": format!("a{}", i), "type": t.name()}),
            Some(n) => json!({"name": format!("a{}", i), "type": format!("[{}]", t.name()), "length": n}),
        })
        .collect();
    let returns = match &f.ret {
        Ret::None => json!({}),
        Ret::One(t, _) => json!({"type": t.name()}),
        Ret::Arr(t, es) => json!({"type": t.name(), "length": es.len()}),
        Ret::Tup(es) => Json::Array(es.iter().map(|(t, _)| json!({"type": t.name()})).collect()),
    };
    json!({
        "name": f.name, "wasm_name": f.name, "doc": f.doc.clone().unwrap_or_default(), "is_ctor": f.ctor,
        "is_fundable": f.fundable.is_some(), "signature": {"params": params, "returns": returns},
    })
}

fn expected_schema(spec: &Spec) -> Json {
    let mut offset = 0;
    let mut out = vec![];
    for (i, v) in spec.vars.iter().enumerate() {
        let size = v.ty.size();
        out.push(match v.len {
            None => json!({"id": v.id, "offset": offset, "name": format!("v{}", i), "type": v.ty.name(), "byte_count": size}),
            Some(n) => json!({"id": v.id, "offset": offset, "name": format!("v{}", i), "type": format!("[{}]", v.ty.name()), "byte_count": size, "length": n}),
        });
        offset += size * v.len.unwrap_or(1);
    }
    Json::Array(out)
}

fn mock_case(g: &mut Ctx) -> R {
    let (seed, n, dir) = templates();
    let k = g.draw(n);
    let spec = Spec::numbered(seed, k, false);
    let path = built(&dir, k, false, &spec)?;
    let lib = load(&path, &spec);
    for (f, at) in spec.funcs.iter().zip(&lib.1) {
        check!(*at != 0, "export", "the template exports no {}\n{}", f.name, spec.module());
    }
    let call0 = |at: usize| {
        let f: extern "C" fn() = unsafe { std::mem::transmute(at) };
        f()
    };
    let call1 = |at: usize| {
        let f: extern "C" fn(Sink) = unsafe { std::mem::transmute(at) };
        sunk(|| f(sink))
    };
    call0(lib.0["h_reset"]);

    if g.one_in(8) {
        g.label("schema");
        let text = call1(lib.0["h_meta"]).remove(0).1;
        let meta: Json = match serde_json::from_slice(&text) {
            Ok(j) => j,
            Err(e) => return fail("schema", format!("the metadata is not JSON: {}", e)),
        };
        check_eq!(meta["schema"], expected_schema(&spec), "schema", "\n{}", spec.module());
        let api = meta["api"].as_array().cloned().unwrap_or_default();
        check_eq!(api.len(), spec.funcs.len(), "api", "the API lists {}\n{}", meta["api"], spec.module());
        for f in &spec.funcs {
            let e = api.iter().find(|e| e["name"] == f.name.as_str()).cloned().unwrap_or_default();
            check_eq!(e, expected_api(f), "api", "\n{}", spec.module());
        }
    }

    let mut vars = spec.fresh();
    let mut log = vec![];
    let mut hooks = 0;
    let mut changed = 0;
    let steps = 1 + g.size(12);
    for _ in 0..steps {
        let i = g.below(spec.funcs.len());
        let f = &spec.funcs[i];
        let args = spec.arguments(g, f);
        let mut addr = || -> [u8; 20] { gens::array(g) };
        let env = Env { principal: addr(), target: addr(), value: if g.flip() { 0 } else { g.int(64) }, layer: g.int(64) };
        let mut data = encode_all(&args);
        if !args.is_empty() && g.one_in(8) {
            V::Bool(true).encode(&mut data);
        }
        log.push(format!("{}{:?} with value {}", f.name, args, env.value));
        let begin: extern "C" fn(*const u8, usize, u64, u64, *const u8, *const u8) = unsafe { std::mem::transmute(lib.0["h_begin"]) };
        begin(data.as_ptr(), data.len(), env.value, env.layer, env.principal.as_ptr(), env.target.as_ptr());
        call0(lib.1[i]);
        let run = spec.run(f, &vars, &args, &env).expect("env: generated code cannot panic");
        let mut ret = vec![];
        let mut logs = vec![];
        for (tag, bytes) in call1(lib.0["h_end"]) {
            if tag == 0 {
                ret = bytes;
            } else {
                logs.push((String::from_utf8_lossy(&bytes).to_string(), (tag - 1) as u8));
            }
        }
        let tell = || format!("template {}: {}\nHISTORY: {}", k, spec.module(), log.join("; "));
        check_eq!(hex(&ret), hex(&run.ret), "returndata", "of the last call\n{}", tell());
        check_eq!(logs, run.logs, "logs", "of the last call\n{}", tell());
        let got: Vec<(u32, Vec<u8>)> = call1(lib.0["h_dump"]);
        let want: Vec<(u32, Vec<u8>)> = spec.raw(&run.vars).into_iter().enumerate().map(|(i, b)| (i as u32, b)).collect();
        check!(got == want, "storage", "storage holds {:?} instead of {:?}\n{}", got, want, tell());
        if run.vars != vars {
            changed += 1;
        }
        hooks += run.hook as u32;
        vars = run.vars;
    }
    g.label_if(hooks > 0, "a fundable hook ran");
    g.label_if(changed > 0, "a call changed storage");
    if changed > 0 && steps >= 2 {
        g.nontrivial = true;
    }
    g.mix(log.join(";").as_bytes());
    g.describe(format!("template {}: {}", k, log.join("; ")));
    let _ = Ty::Bool;
    Ok(())
}

pub fn k04() -> Property {
    Property {
        id: "K04",
        level: "exploration",
        rule: "Templates generated as Rust source with #[template] of svm-sdk-mock (all types; also array parameters, fundable functions with default and named hooks, host queries, logs, documentation attributes), compiled to shared objects; histories of up to 13 calls with arbitrary arguments, coins, layer, principal and target; returndata, logs and all storage against an interpreter of the specification; the emitted metadata (API and storage schema) against the one the specification implies. 24 templates per quick run, 200 per thorough one. Non-trivial: at least two calls of which one changed storage.",
        assumptions: &["functions that do not panic: a panic in an `extern \"C\"` function ends the process"],
        suites: vec![Suite { name: "mock", quick: 40_000, thorough: 1_000_000, chunk: 1000, case: mock_case }],
    }
}
