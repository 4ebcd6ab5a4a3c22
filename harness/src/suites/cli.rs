//! L01: the command line.

use std::path::{Path, PathBuf};
use std::process::{Command, Output};

use serde_json::{json, Value as Json};
use svm_layout::{FixedLayout, Layout};
use svm_types::*;

use super::{gas, hex, json as messages};
use crate::pbt::{fail, Ctx, Fail, R};
use crate::refabi::TYPES;
use crate::runner::{Property, Suite};
use crate::{check, check_eq, gens, refcodec};

const BIN: &str = "SVM_VERIF_CLI";

/// Compiles the command line of the current tree.
pub fn prepare() {
    let root = std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from);
    let target = root.join("target/cli");
    let out = Command::new("cargo")
        .args(&["build", "--offline", "--locked", "-q"])
        .current_dir(crate::tpl::repo_dir().join("crates/host/cli"))
        .env("CARGO_TARGET_DIR", &target)
        .output()
        .expect("env: cargo");
    assert!(out.status.success(), "env: svm-cli does not build: {}", String::from_utf8_lossy(&out.stderr));
    std::env::set_var(BIN, target.join("debug/svm-cli"));
}

fn run(args: &[&str]) -> Output {
    let bin = std::env::var_os(BIN).expect("env: svm-cli was not built");
    Command::new(bin).args(args).env("RUST_BACKTRACE", "0").output().expect("env: svm-cli")
}

fn tell(out: &Output) -> String {
    format!("{}: {}{}", out.status, String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr))
}

fn write(path: &Path, bytes: &[u8]) {
    std::fs::write(path, bytes).expect("env: write");
}

const OLD: &[u8] = b"what was there before";

/// An output path: new, or of a file that exists.
fn output(g: &mut Ctx, dir: &Path) -> (PathBuf, bool) {
    let path = dir.join("out.svm");
    let old = g.flip();
    if old {
        write(&path, OLD);
    }
    (path, old)
}

/// A refused input has no effect but the exit status.
fn refused(out: &Output, path: &Path, old: bool, what: &str) -> R {
    check!(!out.status.success(), "refused-with-success", "{}: {}", what, tell(out));
    let left = std::fs::read(path).ok();
    check!(left == if old { Some(OLD.to_vec()) } else { None }, "refused-output", "{}: the output file holds {:?}", what, left);
    Ok(())
}

fn tx_case(g: &mut Ctx) -> R {
    let mut m = messages::msg(g, true);
    let spoiled = g.one_in(4);
    if spoiled {
        messages::spoil_msg(g, &mut m);
    }
    let text = if g.flip() { m.json.to_string() } else { serde_json::to_string_pretty(&m.json).unwrap() };
    g.mix(text.as_bytes());
    g.describe(text.clone());
    g.nontrivial = true;
    let dir = g.scratch();
    let input = dir.join("in.json");
    write(&input, text.as_bytes());
    let (path, old) = output(g, &dir);
    let kind = if m.call { "call" } else { "spawn" };
    let out = run(&["tx", "--tx-type", kind, "-i", input.to_str().unwrap(), "-o", path.to_str().unwrap()]);
    if spoiled {
        g.label("spoiled");
        return refused(&out, &path, old, &text);
    }
    g.label(kind);
    check!(out.status.success(), "tx-failed", "{}: {}", text, tell(&out));
    let got = std::fs::read(&path).unwrap_or_default();
    check_eq!(hex(&got), hex(&m.bytes), "tx-encoded", "of {}", text);
    Ok(())
}

/// The sections of an encoded template, by kind.
fn sections(bytes: &[u8]) -> Result<Vec<(u16, Vec<u8>)>, Fail> {
    let short = || Fail { sig: "craft-encoded".to_string(), msg: format!("truncated: {}", hex(bytes)) };
    let mut at = 0;
    let mut take = |n: usize| -> Result<&[u8], Fail> {
        let b = bytes.get(at..at + n).ok_or_else(short)?;
        at += n;
        Ok(b)
    };
    let int = |b: &[u8]| b.iter().fold(0usize, |a, x| a << 8 | *x as usize);
    let n = int(take(2)?);
    let mut out = vec![];
    for _ in 0..n {
        let kind = int(take(2)?) as u16;
        let len = int(take(4)?);
        out.push((kind, take(len)?.to_vec()));
    }
    if at != bytes.len() {
        return fail("craft-encoded", format!("{} bytes follow the sections", bytes.len() - at));
    }
    out.sort();
    Ok(out)
}

fn type_of(g: &mut Ctx) -> (String, usize) {
    let (name, size) = *g.pick(&[
        ("bool", 1), ("i8", 1), ("u8", 1), ("i16", 2), ("u16", 2), ("i32", 4), ("u32", 4), ("i64", 8), ("u64", 8), ("amount", 8), ("address", 20),
    ]);
    (name.to_string(), size)
}

fn craft_case(g: &mut Ctx) -> R {
    let mut schema = vec![];
    let mut sizes: Vec<u32> = vec![];
    let mut offset = 0;
    for id in 0..g.size(12) {
        let (ty, size) = type_of(g);
        let mut var = json!({"id": id, "offset": offset, "name": gens::string(g, 12), "type": ty, "byte_count": size});
        let len = if g.one_in(3) { 1 + g.size(40) } else { 0 };
        if len > 0 {
            var["type"] = json!(format!("[{}]", ty));
            var["length"] = json!(len);
        }
        for _ in 0..len.max(1) {
            sizes.push(size as u32);
        }
        offset += size * len.max(1);
        schema.push(var);
    }
    let mut api = vec![];
    let mut ctors = vec![];
    for _ in 0..g.size(10) {
        let name = gens::string(g, 30);
        let ctor = g.flip();
        if ctor {
            ctors.push(name.clone());
        }
        let params: Vec<Json> = (0..g.below(4)).map(|i| json!({"name": format!("p{}", i), "type": g.pick(&TYPES)})).collect();
        let returns = g.pick(&[json!({}), json!({"type": "u32"}), json!([{"type": "bool"}, {"type": "u8"}])]).clone();
        api.push(json!({
            "name": name, "wasm_name": name, "doc": gens::string(g, 20), "is_ctor": ctor, "is_fundable": g.flip(),
            "signature": {"params": params, "returns": returns},
        }));
    }
    let code = gens::blob(g, 3000);
    let mut meta = json!({ "schema": schema, "api": api });
    let spoiled = g.one_in(8);
    if spoiled {
        let key: &str = *g.pick(&["schema", "api"]);
        let list: &mut Vec<Json> = meta[key].as_array_mut().unwrap();
        if list.is_empty() {
            meta[key] = json!(5);
        } else {
            let i = g.below(list.len());
            let field: &str = if key == "schema" { *g.pick(&["name", "byte_count", "type", "id"]) } else { *g.pick(&["name", "is_ctor", "signature"]) };
            if g.flip() {
                list[i].as_object_mut().unwrap().remove(field);
            } else {
                list[i][field] = json!([-1]);
            }
        }
    }
    let text = if g.flip() { meta.to_string() } else { serde_json::to_string_pretty(&meta).unwrap() };
    g.mix(text.as_bytes());
    g.mix(&code);
    g.describe(format!("{} with {} bytes of code", text, code.len()));
    g.nontrivial = !ctors.is_empty() && sizes.len() > 1;

    let dir = g.scratch();
    let (wasm, input) = (dir.join("code.wasm"), dir.join("meta.json"));
    write(&wasm, &code);
    write(&input, text.as_bytes());
    let (path, old) = output(g, &dir);
    let out = run(&["craft-deploy", "--smwasm", wasm.to_str().unwrap(), "--meta", input.to_str().unwrap(), "--output", path.to_str().unwrap()]);
    if spoiled {
        g.label("spoiled");
        return refused(&out, &path, old, &text);
    }
    check!(out.status.success(), "craft-failed", "{}: {}", text, tell(&out));
    let got = std::fs::read(&path).unwrap_or_default();
    let layout = Layout::Fixed(FixedLayout::from_byte_sizes(0, &sizes));
    let mut want = vec![
        refcodec::section(&Section::Code(CodeSection::new(CodeKind::Wasm, code, CodeSection::exec_flags(), GasMode::Fixed, 0))),
        refcodec::section(&Section::Data(DataSection::with_layout(layout))),
        refcodec::section(&Section::Ctors(CtorsSection::new(ctors))),
    ];
    want.sort();
    check!(sections(&got)? == want, "craft-encoded", "{} gives {} instead of {:?}", text, hex(&got), want);
    Ok(())
}

fn import_price(name: &str) -> Option<usize> {
    Some(match name {
        "svm_static_alloc" => 100,
        "svm_calldata_offset" => 10,
        "svm_calldata_len" => 10,
        "svm_set_returndata" => 20,
        "svm_get32" => 100,
        "svm_set32" => 1_000_000,
        "svm_get64" => 200,
        "svm_set64" => 2_000_000,
        "svm_load160" => 500,
        "svm_store160" => 5_000_000,
        "svm_log" => 3_000,
        _ => return None,
    })
}

fn validate_case(g: &mut Ctx) -> R {
    let (mut wat, mut prices) = gas::cli_module(g, &import_price);
    let cut = g.one_in(10);
    if cut {
        prices = None;
    }
    g.mix(wat.as_bytes());
    g.describe(wat.clone());
    g.nontrivial = true;
    g.label(if prices.is_some() { "valid" } else { "flawed" });
    let dir = g.scratch();
    let path = if g.flip() {
        if cut {
            wat.truncate(wat.len() / 2);
        }
        let path = dir.join("code.wat");
        write(&path, wat.as_bytes());
        path
    } else {
        let path = dir.join("code.wasm");
        let mut code = wat::parse_str(&wat).expect("env: wat");
        if cut {
            code.truncate(code.len() - 1 - g.below(5));
        }
        write(&path, &code);
        path
    };
    let out = run(&["validate", "-i", path.to_str().unwrap()]);
    check!(out.status.code().map_or(false, |c| c < 100), "validate-panics", "{}: {}", wat, tell(&out));
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let valid = text.lines().any(|l| l.contains("contains a valid smWasm module"));
    check!(valid == prices.is_some(), "validate-verdict", "{} is said to be {}valid: {}", wat, if valid { "" } else { "in" }, tell(&out));
    if let Some(prices) = prices {
        for (f, p) in prices {
            let line = format!("Function #{} price: {}", f, p);
            check!(text.lines().any(|l| l == line), "validate-price", "there's no {:?} for {}: {}", line, wat, text);
        }
    }
    Ok(())
}

pub fn l01() -> Property {
    Property {
        id: "L01",
        level: "exploration",
        rule: "svm-cli of the current tree is built and run as a process. tx: calls and spawns with input data of all types, given as JSON, against a reference encoder; one in four is spoiled in one field and must be refused. craft-deploy: any code and metadata (schemas with up to 11 fields and arrays, up to 9 functions), against the reference encoding of the template's sections; one in eight is spoiled. A refusal exits with an error and leaves the output file as it was. validate: modules as text and binary, half of them with a loop, an indirect call, a float or a cycle of calls, or truncated; the verdict and the printed prices against the path-enumerating oracle of G02. Non-trivial: all transactions and modules, and templates with constructors and several variables.",
        assumptions: &["modules given to validate are well-typed Wasm (type checking is the node's), and imports of modules are those its example prices list"],
        suites: vec![
            Suite { name: "tx", quick: 6000, thorough: 150_000, chunk: 100, case: tx_case },
            Suite { name: "craft-deploy", quick: 6000, thorough: 150_000, chunk: 100, case: craft_case },
            Suite { name: "validate", quick: 6000, thorough: 150_000, chunk: 100, case: validate_case },
        ],
    }
}
