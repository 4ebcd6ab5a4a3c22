//! Validation and fixed-gas pricing of templates.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::rc::Rc;

use parity_wasm::elements::Instruction;
use svm_gas::{FixedGasError, FuncPrice, GraphCycles, PriceResolver, ProgramPricing};
use svm_layout::{FixedLayout, Layout};
use svm_program::{FuncIndex, Op, Program, ProgramError, ProgramVisitor};
use svm_runtime::ValidateError;
use svm_types::*;

use crate::gens;
use crate::pbt::{Ctx, R};
use crate::runner::{Property, Suite};
use crate::vm::Node;
use crate::{check, check_eq};

// ---------------------------------------------------------------------------------------------
// Programs
// ---------------------------------------------------------------------------------------------

/// Structured code that leaves the stack as it was.
#[derive(Clone, Debug)]
enum N {
    /// A run of plain instructions.
    Ops(&'static [&'static str]),
    /// Index among the functions (not counting imports).
    Call(usize),
    Import(usize),
    Block(Vec<N>),
    /// Condition, then-branch, else-branch.
    If(Vec<N>, Option<Vec<N>>),
    /// `if` with a value.
    IfValue(Vec<N>, Vec<N>),
    Br(usize),
    BrIf(usize),
    BrTable(Vec<usize>),
    Return,
    Unreachable,
    Loop(Vec<N>),
    CallIndirect,
    Raw(String),
}

const PLAIN: &[&[&str]] = &[
    &["nop"],
    &["i32.const 7", "drop"],
    &["local.get 0", "local.set 1"],
    &["local.get 0", "i32.const -3", "i32.add", "local.set 0"],
    &["i64.const 5", "i64.const 6", "i64.mul", "drop"],
    &["local.get 1", "i32.load offset=4", "drop"],
    &["i32.const 16", "local.get 0", "i32.store"],
    &["local.get 0", "local.get 1", "i32.const 1", "select", "local.tee 0", "drop"],
    &["global.get 0", "global.set 0"],
    &["memory.size", "drop"],
    &["i32.const 0", "memory.grow", "drop"],
    &["local.get 0", "i64.extend_i32_s", "i32.wrap_i64", "drop"],
];

struct Code {
    funcs: usize,
    imports: usize,
    /// Functions that may be called by the one being generated.
    callable: Vec<usize>,
    budget: usize,
}

impl Code {
    fn seq(&mut self, g: &mut Ctx, depth: usize) -> Vec<N> {
        let n = g.below(5);
        let mut out = vec![];
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            out.push(self.node(g, depth));
        }
        out
    }

    /// `depth`: the number of enclosing labels, the function's included.
    fn node(&mut self, g: &mut Ctx, depth: usize) -> N {
        match g.weighted(&[24, 8, 8, 10, 12, 5, 6, 8, 4, 2, 1]) {
            0 => N::Ops(PLAIN[g.below(PLAIN.len())]),
            1 if !self.callable.is_empty() => N::Call(*g.pick(&self.callable)),
            2 if self.imports > 0 => N::Import(g.below(self.imports)),
            3 => N::Block(self.seq(g, depth + 1)),
            4 => {
                let then = self.seq(g, depth + 1);
                let other = if g.flip() { Some(self.seq(g, depth + 1)) } else { None };
                N::If(then, other)
            }
            5 => {
                let a = self.seq(g, depth + 1);
                N::IfValue(a, self.seq(g, depth + 1))
            }
            6 => N::Br(g.below(depth)),
            7 => N::BrIf(g.below(depth)),
            8 => {
                let n = if g.one_in(12) { 5 + g.below(40) } else { 1 + g.below(4) };
                N::BrTable((0..n).map(|_| g.below(depth)).collect())
            }
            9 => N::Return,
            10 => N::Unreachable,
            _ => N::Ops(PLAIN[0]),
        }
    }
}

fn emit(out: &mut String, seq: &[N], imports: usize) {
    for n in seq {
        match n {
            N::Ops(ops) => {
                for o in ops.iter() {
                    out.push_str(o);
                    out.push(' ');
                }
            }
            N::Call(f) => write!(out, "call {} ", f + imports).unwrap(),
            N::Import(f) => write!(out, "call {} ", f).unwrap(),
            N::Block(b) => {
                out.push_str("block ");
                emit(out, b, imports);
                out.push_str("end ");
            }
            N::Loop(b) => {
                out.push_str("loop ");
                emit(out, b, imports);
                out.push_str("end ");
            }
            N::If(t, e) => {
                out.push_str("local.get 0 if ");
                emit(out, t, imports);
                if let Some(e) = e {
                    out.push_str("else ");
                    emit(out, e, imports);
                }
                out.push_str("end ");
            }
            N::IfValue(t, e) => {
                // Branches out of it would need a value: its label isn't a target (see `targets`).
                out.push_str("local.get 0 if (result i32) ");
                emit(out, t, imports);
                out.push_str("i32.const 1 else ");
                emit(out, e, imports);
                out.push_str("i32.const 2 end drop ");
            }
            N::Br(d) => write!(out, "br {} ", d).unwrap(),
            N::BrIf(d) => write!(out, "local.get 0 br_if {} ", d).unwrap(),
            N::BrTable(ds) => {
                out.push_str("local.get 0 br_table ");
                for d in ds {
                    write!(out, "{} ", d).unwrap();
                }
            }
            N::Return => out.push_str("return "),
            N::Unreachable => out.push_str("unreachable "),
            N::CallIndirect => out.push_str("i32.const 0 call_indirect (type $v) "),
            N::Raw(s) => {
                out.push_str(s);
                out.push(' ');
            }
        }
    }
}

/// The label of a valued `if` needs a value, so branches to it are turned into branches to
/// the label outside of it.
fn retarget(seq: &mut [N], labels: &mut Vec<bool>) {
    let fix = |d: &mut usize, labels: &Vec<bool>| {
        while labels[labels.len() - 1 - *d] {
            *d += 1;
        }
    };
    for n in seq {
        match n {
            N::Br(d) | N::BrIf(d) => fix(d, labels),
            N::BrTable(ds) => ds.iter_mut().for_each(|d| fix(d, labels)),
            N::Block(b) | N::Loop(b) => {
                labels.push(false);
                retarget(b, labels);
                labels.pop();
            }
            N::If(t, e) => {
                labels.push(false);
                retarget(t, labels);
                if let Some(e) = e {
                    retarget(e, labels);
                }
                labels.pop();
            }
            N::IfValue(t, e) => {
                labels.push(true);
                retarget(t, labels);
                retarget(e, labels);
                labels.pop();
            }
            _ => (),
        }
    }
}

fn calls(seq: &[N], out: &mut BTreeSet<usize>) {
    for n in seq {
        match n {
            N::Call(f) => {
                out.insert(*f);
            }
            N::Block(b) | N::Loop(b) => calls(b, out),
            N::If(t, e) => {
                calls(t, out);
                if let Some(e) = e {
                    calls(e, out);
                }
            }
            N::IfValue(t, e) => {
                calls(t, out);
                calls(e, out);
            }
            _ => (),
        }
    }
}

fn has(seq: &[N], what: &dyn Fn(&N) -> bool) -> bool {
    seq.iter().any(|n| {
        what(n)
            || match n {
                N::Block(b) | N::Loop(b) => has(b, what),
                N::If(t, e) => has(t, what) || e.as_ref().map_or(false, |e| has(e, what)),
                N::IfValue(t, e) => has(t, what) || has(e, what),
                _ => false,
            }
    })
}

const IMPORTS: &[&str] = &[
    "svm_static_alloc",
    "svm_calldata_offset",
    "svm_calldata_len",
    "svm_set_returndata",
    "svm_get32",
    "svm_set32",
    "svm_get64",
    "svm_set64",
    "svm_load160",
    "svm_store160",
    "svm_log",
    "svm_transfer",
    "svm_something",
];

struct Module {
    /// Import functions: module and name.
    imports: Vec<(String, String)>,
    funcs: Vec<Vec<N>>,
    /// Positions among the imports at which something other than a function is imported.
    other_imports: Vec<usize>,
    alloc: Export,
    verify: Export,
    extra: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Export {
    Right,
    Missing,
    WrongParams,
    WrongResults,
    /// Exports a memory or a global under the name.
    NotFunction,
    /// Exports an imported function under the name.
    Imported,
}

impl Module {
    fn wat(&self) -> String {
        let mut s = String::from("(module (type $v (func)) ");
        for (i, (module, name)) in self.imports.iter().enumerate() {
            if self.other_imports.contains(&i) {
                write!(s, "(import \"env\" \"g{}\" (global i32)) ", i).unwrap();
            }
            write!(s, "(import \"{}\" \"{}\" (func)) ", module, name).unwrap();
        }
        s.push_str("(memory (export \"memory\") 1) (global $m (mut i32) (i32.const 0)) (table 1 funcref) ");
        for (i, f) in self.funcs.iter().enumerate() {
            write!(s, "(func (export \"f{}\") (local i32 i32 f32 f64 i64) ", i).unwrap();
            let mut body = String::new();
            emit(&mut body, f, self.imports.len());
            // `global.get 0` means the module's own.
            s.push_str(&body.replace("global.get 0", "global.get $m").replace("global.set 0", "global.set $m"));
            s.push_str(") ");
        }
        let export = |s: &mut String, name: &str, e: Export, params: &str| {
            let right = match e {
                Export::Right => format!("(func (export \"{}\") {} (result i32) i32.const 0) ", name, params),
                Export::Missing => String::new(),
                Export::WrongParams => {
                    let p = if params.is_empty() { "(param i32)" } else { "(param i64)" };
                    format!("(func (export \"{}\") {} (result i32) i32.const 0) ", name, p)
                }
                Export::WrongResults => format!("(func (export \"{}\") {} (result i64) i64.const 0) ", name, params),
                Export::NotFunction => format!("(export \"{}\" (global $m)) ", name),
                Export::Imported => format!("(export \"{}\" (func 0)) ", name),
            };
            s.push_str(&right);
        };
        export(&mut s, "svm_alloc", self.alloc, "(param i32)");
        export(&mut s, "svm_verify", self.verify, "");
        s.push_str(&self.extra);
        s.push(')');
        s
    }

    fn graph(&self) -> Vec<BTreeSet<usize>> {
        self.funcs
            .iter()
            .map(|f| {
                let mut out = BTreeSet::new();
                calls(f, &mut out);
                out
            })
            .collect()
    }

    /// Without cycles: callees follow an order unrelated to their indices.
    fn acyclic(g: &mut Ctx, max_funcs: usize) -> Module {
        let mut imports = vec![];
        for _ in 0..g.below(5) {
            let module = if g.one_in(8) { "other" } else { "svm" };
            imports.push((module.to_string(), g.pick(IMPORTS).to_string()));
        }
        let other_imports = if g.one_in(3) && !imports.is_empty() { vec![g.below(imports.len())] } else { vec![] };
        // At times very many functions, in chains of calls.
        let many = g.one_in(50);
        let doubling = many && g.flip();
        let count = if many { 20 + g.below(200) } else { 1 + g.below(max_funcs) };
        // A random order; each function may call the ones before it.
        let mut order: Vec<usize> = (0..count).collect();
        for i in (1..count).rev() {
            order.swap(i, g.below(i + 1));
        }
        let mut funcs = vec![vec![]; count];
        for (i, f) in order.iter().enumerate() {
            if many {
                let mut seq = vec![N::Ops(PLAIN[g.below(PLAIN.len())])];
                if i > 0 && !g.one_in(60) {
                    // Where each calls the one before it twice, the price of the last doesn't fit 64 bits.
                    let times = if doubling { 1 + g.below(3) } else { 1 };
                    seq.extend((0..times).map(|_| N::Call(order[i - 1])));
                }
                funcs[*f] = seq;
                continue;
            }
            let budget = 3 + g.below(22);
            let mut code = Code { funcs: count, imports: imports.len(), callable: order[..i].to_vec(), budget };
            let mut seq = vec![];
            while code.budget > 0 && seq.len() < 8 {
                code.budget -= 1;
                let n = code.node(g, 1);
                seq.push(n);
                if g.one_in(5) {
                    break;
                }
            }
            debug_assert!(code.funcs == count);
            match g.draw(60) {
                58 => {
                    // deep nesting, left from inside
                    let k = 8 + g.below(40);
                    seq.push(N::BrIf(g.below(k)));
                    for _ in 0..k {
                        let after = N::Ops(PLAIN[g.below(PLAIN.len())]);
                        seq = vec![N::Block(seq), after];
                    }
                }
                59 => {
                    // long
                    let n = 100 + g.below(900);
                    let op = g.below(PLAIN.len());
                    seq.extend((0..n).map(|k| N::Ops(PLAIN[(op + k) % PLAIN.len()])));
                }
                _ => {}
            }
            retarget(&mut seq, &mut vec![false]);
            funcs[*f] = seq;
        }
        Module { imports, funcs, other_imports, alloc: Export::Right, verify: Export::Right, extra: String::new() }
    }
}

fn reaches(graph: &[BTreeSet<usize>], from: usize, to: usize) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from];
    while let Some(f) = todo.pop() {
        for t in &graph[f] {
            if *t == to {
                return true;
            }
            if seen.insert(*t) {
                todo.push(*t);
            }
        }
    }
    false
}

// ---------------------------------------------------------------------------------------------
// G02: prices
// ---------------------------------------------------------------------------------------------

type Prices = BTreeMap<String, usize>;

fn word(op: &str) -> String {
    op.split(' ').next().unwrap().to_string()
}

/// Prices of instructions chosen by the test, so that no two paths look alike.
struct Chosen {
    ops: Prices,
    imports: BTreeMap<(String, String), usize>,
}

fn name(i: &Instruction) -> &'static str {
    match i {
        Instruction::Nop => "nop",
        Instruction::I32Const(_) => "i32.const",
        Instruction::I64Const(_) => "i64.const",
        Instruction::Drop => "drop",
        Instruction::GetLocal(_) => "local.get",
        Instruction::SetLocal(_) => "local.set",
        Instruction::TeeLocal(_) => "local.tee",
        Instruction::GetGlobal(_) => "global.get",
        Instruction::SetGlobal(_) => "global.set",
        Instruction::I32Add => "i32.add",
        Instruction::I64Mul => "i64.mul",
        Instruction::I32Load(..) => "i32.load",
        Instruction::I32Store(..) => "i32.store",
        Instruction::Select => "select",
        Instruction::CurrentMemory(_) => "memory.size",
        Instruction::GrowMemory(_) => "memory.grow",
        Instruction::I64ExtendSI32 => "i64.extend_i32_s",
        Instruction::I32WrapI64 => "i32.wrap_i64",
        Instruction::Block(_) => "block",
        _ => "other",
    }
}

impl PriceResolver for Chosen {
    fn op_price(&self, op: &Op) -> usize {
        self.ops.get(name(op.raw())).copied().unwrap_or(1)
    }

    fn import_price(&self, import: (&str, &str)) -> usize {
        self.imports.get(&(import.0.to_string(), import.1.to_string())).copied().unwrap_or(1)
    }
}

fn documented_import_price(module: &str, name: &str) -> usize {
    if module != "svm" {
        return 1000;
    }
    match name {
        "svm_static_alloc" | "svm_get32" => 100,
        "svm_calldata_offset" | "svm_calldata_len" => 10,
        "svm_set_returndata" => 20,
        "svm_set32" => 1_000_000,
        "svm_get64" => 200,
        "svm_set64" => 2_000_000,
        "svm_load160" => 500,
        "svm_store160" => 5_000_000,
        "svm_log" => 3_000,
        _ => 1000,
    }
}

struct Oracle<'a> {
    op: &'a dyn Fn(&str) -> usize,
    imports: &'a [usize],
    /// Prices of the functions, in their order.
    funcs: Vec<Option<usize>>,
}

impl<'a> Oracle<'a> {
    /// The most that running `seq` and what follows it can cost: `rest` is what follows, and
    /// `labels` what follows each enclosing label, innermost last.
    fn most(&self, seq: &[N], rest: usize, labels: &mut Vec<usize>) -> usize {
        let mut k = rest;
        let op = self.op;
        for n in seq.iter().rev() {
            k = match n {
                N::Ops(ops) => ops.iter().fold(k, |k, o| k.saturating_add(op(&word(o)))),
                N::Call(f) => k.saturating_add(self.funcs[*f].expect("callee first")),
                N::Import(i) => k.saturating_add(self.imports[*i]),
                N::Block(b) => op("block").saturating_add(self.nested(b, k, labels)),
                N::If(t, e) => {
                    let t = self.nested(t, k, labels);
                    let e = e.as_ref().map_or(k, |e| self.nested(e, k, labels));
                    op("local.get").saturating_add(t.max(e))
                }
                N::IfValue(t, e) => {
                    let k = k.saturating_add(op("drop"));
                    // What follows within a branch is its constant; the label isn't a target.
                    let c = op("i32.const");
                    labels.push(0);
                    let t = self.most(t, k.saturating_add(c), labels);
                    let e = self.most(e, k.saturating_add(c), labels);
                    labels.pop();
                    op("local.get").saturating_add(t.max(e))
                }
                N::Br(d) => labels[labels.len() - 1 - d],
                N::BrIf(d) => op("local.get").saturating_add(k.max(labels[labels.len() - 1 - d])),
                N::BrTable(ds) => op("local.get").saturating_add(ds.iter().map(|d| labels[labels.len() - 1 - d]).max().unwrap()),
                N::Return | N::Unreachable => 0,
                N::Loop(_) | N::CallIndirect | N::Raw(_) => unreachable!(),
            };
        }
        k
    }

    fn nested(&self, b: &[N], k: usize, labels: &mut Vec<usize>) -> usize {
        labels.push(k);
        let r = self.most(b, k, labels);
        labels.pop();
        r
    }

    /// One execution with generated conditions: its cost, and how it left (`None`: at the end).
    fn walk(&self, g: &mut Ctx, seq: &[N], module: &Module, cost: &mut usize, fuel: &mut usize) -> Option<Exit> {
        let op = self.op;
        for n in seq {
            *fuel = fuel.saturating_sub(1);
            if *fuel == 0 {
                return Some(Exit::Stopped);
            }
            let exit = match n {
                N::Ops(ops) => {
                    *cost = ops.iter().fold(*cost, |k, o| k.saturating_add(op(&word(o))));
                    None
                }
                N::Call(f) => match self.walk(g, &module.funcs[*f], module, cost, fuel) {
                    Some(Exit::Stopped) => Some(Exit::Stopped),
                    _ => None,
                },
                N::Import(i) => {
                    *cost = cost.saturating_add(self.imports[*i]);
                    None
                }
                N::Block(b) => {
                    *cost = cost.saturating_add(op("block"));
                    self.walk(g, b, module, cost, fuel).and_then(Exit::up)
                }
                N::If(t, e) => {
                    *cost = cost.saturating_add(op("local.get"));
                    if g.flip() {
                        self.walk(g, t, module, cost, fuel).and_then(Exit::up)
                    } else if let Some(e) = e {
                        self.walk(g, e, module, cost, fuel).and_then(Exit::up)
                    } else {
                        None
                    }
                }
                N::IfValue(t, e) => {
                    *cost = cost.saturating_add(op("local.get"));
                    let branch = if g.flip() { t } else { e };
                    let r = self.walk(g, branch, module, cost, fuel);
                    if r.is_none() {
                        *cost = cost.saturating_add(op("i32.const").saturating_add(op("drop")));
                    }
                    r.and_then(Exit::up)
                }
                N::Br(d) => Some(Exit::Br(*d)),
                N::BrIf(d) => {
                    *cost = cost.saturating_add(op("local.get"));
                    if g.flip() {
                        Some(Exit::Br(*d))
                    } else {
                        None
                    }
                }
                N::BrTable(ds) => {
                    *cost = cost.saturating_add(op("local.get"));
                    Some(Exit::Br(*g.pick(ds)))
                }
                N::Return => Some(Exit::Return),
                N::Unreachable => Some(Exit::Stopped),
                N::Loop(_) | N::CallIndirect | N::Raw(_) => unreachable!(),
            };
            if exit.is_some() {
                return exit;
            }
        }
        None
    }
}

enum Exit {
    Br(usize),
    Return,
    Stopped,
}

impl Exit {
    fn up(self) -> Option<Exit> {
        match self {
            Exit::Br(0) => None,
            Exit::Br(d) => Some(Exit::Br(d - 1)),
            e => Some(e),
        }
    }
}

fn g02_case(g: &mut Ctx) -> R {
    let module = Module::acyclic(g, 6);
    let wat = module.wat();
    g.describe(wat.clone());
    let wasm = wat::parse_str(&wat).expect("env: wat");
    let program = match Program::new(&wasm, true) {
        Ok(p) => p,
        Err(e) => return crate::pbt::fail("program-rejected", format!("{:?}: {}", e, wat)),
    };
    check!(svm_gas::validate_wasm(&program, false).is_ok(), "validation-rejected", "a valid program is rejected: {}", wat);

    let v0 = g.one_in(3);
    // At times prices that don't add up within 64 bits.
    let huge = !v0 && g.one_in(12);
    let any = |g: &mut Ctx, n: usize| if huge && g.one_in(4) { g.int(64) as usize } else { g.below(n) };
    let chosen = {
        let mut ops = Prices::new();
        for o in &[
            "nop", "i32.const", "i64.const", "drop", "local.get", "local.set", "local.tee", "global.get", "global.set", "i32.add",
            "i64.mul", "i32.load", "i32.store", "select", "memory.size", "memory.grow", "i64.extend_i32_s", "i32.wrap_i64", "block",
        ] {
            ops.insert(o.to_string(), if v0 { 1 } else { any(g, 50) });
        }
        let mut imports = BTreeMap::new();
        for i in &module.imports {
            let p = if v0 { documented_import_price(&i.0, &i.1) } else { any(g, 1000) };
            imports.insert(i.clone(), p);
        }
        Chosen { ops, imports }
    };
    let import_prices: Vec<usize> = module.imports.iter().map(|i| chosen.imports[i]).collect();
    let op_prices = chosen.ops.clone();
    let op = move |o: &str| op_prices[o];
    let price = |r: Rc<dyn PriceResolver>| -> FuncPrice {
        match ProgramPricing::new(r).visit(&program) {
            Ok(p) => p,
            Err(e) => panic!("pricing failed: {:?}", e),
        }
    };
    let prices = if v0 { price(Rc::new(svm_gas::resolvers::V0PriceResolver::default())) } else { price(Rc::new(chosen)) };

    // Callees first.
    let graph = module.graph();
    let mut oracle = Oracle { op: &op, imports: &import_prices, funcs: vec![None; module.funcs.len()] };
    while oracle.funcs.iter().any(|p| p.is_none()) {
        for f in 0..module.funcs.len() {
            if oracle.funcs[f].is_none() && graph[f].iter().all(|c| oracle.funcs[*c].is_some()) {
                oracle.funcs[f] = Some(oracle.most(&module.funcs[f], 0, &mut vec![0]));
            }
        }
    }
    g.label_if(oracle.funcs.iter().any(|p| *p == Some(usize::MAX)), "beyond-64-bits");
    let base = module.imports.len();
    for f in 0..module.funcs.len() {
        let got = prices.get(FuncIndex((base + f) as u32));
        let expected = oracle.funcs[f].unwrap();
        check_eq!(got, expected, "price", "price of function {} of {}", f, wat);
        for _ in 0..3 {
            let mut cost = 0;
            let mut fuel = 300;
            oracle.walk(g, &module.funcs[f], &module, &mut cost, &mut fuel);
            check!(cost <= got, "price-exceeded", "an execution of function {} costs {}, its price is {}: {}", f, cost, got, wat);
        }
        let branchy = has(&module.funcs[f], &|n| matches!(n, N::Br(_) | N::BrIf(_) | N::BrTable(_) | N::Return | N::Unreachable));
        g.nontrivial |= branchy;
        g.label_if(branchy, "functions-with-jumps");
        g.label_if(!graph[f].is_empty(), "functions-with-calls");
    }
    Ok(())
}

/// Functions that are large in one respect: the code is built along with its price.
fn g02_large_case(g: &mut Ctx) -> R {
    let size = if g.one_in(4) { 2000 + g.below(20_000) } else { 50 + g.below(1500) };
    let mut body: Vec<u8> = vec![];
    let nops = |body: &mut Vec<u8>, n: usize| body.extend(std::iter::repeat(0x01).take(n));
    let kind = g.below(4);
    let (what, price) = match kind {
        0 => {
            // Nested blocks, some followed by something, left from the innermost.
            let mut after = vec![];
            for _ in 0..size {
                body.extend([0x02, 0x40]);
                after.push(if g.one_in(8) { g.below(5) } else { 0 });
            }
            let jumps = 1 + g.below(3);
            // What's left after the end of the `i`-th block, outermost first.
            let mut left = vec![0; size + 1];
            for i in 0..size {
                left[i + 1] = left[i] + after[i];
            }
            // Labels: `0` is the innermost, `size` the function.
            let mut rest = left[size];
            let mut code = vec![];
            for _ in 0..jumps {
                let depth = g.below(size + 1);
                let target = if depth == size { 0 } else { left[size - depth] };
                let conditional = g.flip();
                code.push((depth, target, conditional));
            }
            for (_, target, conditional) in code.iter().rev() {
                rest = if *conditional { 1 + rest.max(*target) } else { *target };
            }
            for (depth, _, conditional) in &code {
                if *conditional {
                    body.extend([0x20, 0, 0x0d]);
                } else {
                    body.push(0x0c);
                }
                leb(&mut body, *depth);
            }
            for n in after.iter().rev() {
                body.push(0x0b);
                nops(&mut body, *n);
            }
            ("nested blocks", size + rest)
        }
        1 => {
            // A table of branches out of a few blocks.
            let blocks = 2 + g.below(6);
            let mut after = vec![];
            for _ in 0..blocks {
                body.extend([0x02, 0x40]);
                after.push(g.below(5));
            }
            body.extend([0x20, 0, 0x0e]);
            leb(&mut body, size);
            // A target that is rare.
            let rare = g.below(blocks);
            let at = g.below(size + 1);
            let usual = g.below(blocks);
            for i in 0..=size {
                leb(&mut body, if i == at { rare } else { usual });
            }
            // The `n`-th innermost block is followed by the ops of it and of all outside of it.
            let follows = |n: usize| after[..blocks - n].iter().sum::<usize>();
            for n in after.iter().rev() {
                body.push(0x0b);
                nops(&mut body, *n);
            }
            ("targets", blocks + 1 + follows(rare).max(follows(usual)))
        }
        2 => {
            // Conditionals in a row.
            let mut price = 0;
            for _ in 0..size {
                let (t, e) = (g.below(3), g.below(3));
                body.extend([0x20, 0, 0x04, 0x40]);
                nops(&mut body, t);
                if e > 0 {
                    body.push(0x05);
                    nops(&mut body, e);
                }
                body.push(0x0b);
                price += 1 + t.max(e);
            }
            ("conditionals", price)
        }
        _ => {
            // Conditionals within conditionals.
            let mut tail = vec![];
            let mut price = 0;
            for _ in 0..size {
                let (before, e) = (g.below(2), g.below(3));
                body.extend([0x20, 0, 0x04, 0x40]);
                nops(&mut body, before);
                tail.push((before, e));
            }
            for (before, e) in tail.iter().rev() {
                if *e > 0 {
                    body.push(0x05);
                    nops(&mut body, *e);
                }
                body.push(0x0b);
                price = 1 + (before + price).max(*e);
            }
            ("nested conditionals", price)
        }
    };
    let mut funcs = vec![body];
    if g.flip() {
        // It calls the large one.
        funcs.push(vec![0x10, 0]);
    }
    g.describe(format!("{} {}, expected price {}", size, what, price));
    g.label(what);
    g.nontrivial = true;
    let wasm = many_functions("svm_log", 0, &funcs);
    check_eq!(
        validate(g, &message(wasm.clone(), vec!["f0".to_string()], FixedLayout::default())),
        Ok(()),
        "large-refused",
        "{} {}",
        size,
        what
    );
    let program = Program::new(&wasm, true).expect("validated");
    let prices = ProgramPricing::new(Rc::new(svm_gas::resolvers::V0PriceResolver::default())).visit(&program).expect("pricing");
    for f in 0..funcs.len() {
        check_eq!(prices.get(FuncIndex(f as u32)), price, "large-price", "price of function {} with {} {}", f, size, what);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// G01: validation
// ---------------------------------------------------------------------------------------------

const FLOAT_UNARY: &[(&str, &str)] = &[
    ("f32", "abs"), ("f32", "neg"), ("f32", "ceil"), ("f32", "floor"), ("f32", "trunc"), ("f32", "nearest"), ("f32", "sqrt"),
    ("f64", "abs"), ("f64", "neg"), ("f64", "ceil"), ("f64", "floor"), ("f64", "trunc"), ("f64", "nearest"), ("f64", "sqrt"),
];
const FLOAT_BINARY: &[&str] = &["add", "sub", "mul", "div", "min", "max", "copysign", "eq", "ne", "lt", "gt", "le", "ge"];
/// Conversions, with the type of the operand.
const FLOAT_CONV: &[(&str, &str)] = &[
    ("i32.trunc_f32_s", "f32"), ("i32.trunc_f32_u", "f32"), ("i32.trunc_f64_s", "f64"), ("i32.trunc_f64_u", "f64"),
    ("i64.trunc_f32_s", "f32"), ("i64.trunc_f32_u", "f32"), ("i64.trunc_f64_s", "f64"), ("i64.trunc_f64_u", "f64"),
    ("f32.convert_i32_s", "i32"), ("f32.convert_i32_u", "i32"), ("f32.convert_i64_s", "i64"), ("f32.convert_i64_u", "i64"),
    ("f32.demote_f64", "f64"), ("f64.promote_f32", "f32"),
    ("f64.convert_i32_s", "i32"), ("f64.convert_i32_u", "i32"), ("f64.convert_i64_s", "i64"), ("f64.convert_i64_u", "i64"),
    ("i32.reinterpret_f32", "f32"), ("i64.reinterpret_f64", "f64"), ("f32.reinterpret_i32", "i32"), ("f64.reinterpret_i64", "i64"),
];

fn local(ty: &str) -> usize {
    match ty {
        "i32" => 0,
        "f32" => 2,
        "f64" => 3,
        _ => 4,
    }
}

fn float_op(g: &mut Ctx) -> String {
    let ty = if g.flip() { "f64" } else { "f32" };
    match g.draw(6) {
        0 => format!("{}.const {} drop", ty, g.draw(10)),
        1 => format!("i32.const 0 {}.load drop", ty),
        2 => format!("i32.const 0 local.get {} {}.store", local(ty), ty),
        3 => {
            let (ty, op) = *g.pick(FLOAT_UNARY);
            format!("local.get {} {}.{} drop", local(ty), ty, op)
        }
        4 => format!("local.get {0} local.get {0} {1}.{2} drop", local(ty), ty, g.pick(FLOAT_BINARY)),
        _ => {
            let (op, from) = *g.pick(FLOAT_CONV);
            format!("local.get {} {} drop", local(from), op)
        }
    }
}

/// Puts `n` at a generated place of the function.
fn insert(g: &mut Ctx, seq: &mut Vec<N>, n: N) {
    if !seq.is_empty() && g.flip() {
        let i = g.below(seq.len());
        match &mut seq[i] {
            N::Block(b) | N::Loop(b) => return insert(g, b, n),
            N::If(t, e) => {
                return match e {
                    Some(e) if g.flip() => insert(g, e, n),
                    _ => insert(g, t, n),
                }
            }
            N::IfValue(t, e) => return if g.flip() { insert(g, t, n) } else { insert(g, e, n) },
            _ => (),
        }
    }
    let at = g.below(seq.len() + 1);
    seq.insert(at, n);
}

fn message(code: Vec<u8>, ctors: Vec<String>, layout: FixedLayout) -> Vec<u8> {
    let template = Template::new(CodeSection::new_fixed(code, 1), DataSection::with_layout(Layout::Fixed(layout)), CtorsSection::new(ctors));
    svm_codec::template::encode(&template)
}

thread_local! {
    /// Validation involves no state.
    static NODE: std::cell::RefCell<Option<Node>> = std::cell::RefCell::new(None);
}

fn validate(g: &mut Ctx, message: &[u8]) -> Result<(), ValidateError> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            let path = g.scratch().join("v.sqlite");
            *n = Some(Node::open(&path));
        }
        n.as_ref().unwrap().vm.validate_deploy(message)
    })
}

fn is_cycle(graph: &[BTreeSet<usize>], cycle: &[FuncIndex], base: usize) -> bool {
    let nodes: Option<Vec<usize>> = cycle.iter().map(|f| (f.0 as usize).checked_sub(base)).collect();
    let nodes = match nodes {
        Some(n) if n.len() > 1 => n,
        _ => return false,
    };
    // It is the path to a cycle and the cycle itself, which ends where it closes.
    nodes[..nodes.len() - 1].contains(nodes.last().unwrap()) && nodes.windows(2).all(|w| w[0] < graph.len() && graph[w[0]].contains(&w[1]))
}

fn g01_case(g: &mut Ctx) -> R {
    let mut module = Module::acyclic(g, 7);
    let count = module.funcs.len();
    let mut loops = false;
    let mut indirect = false;
    let mut floats = false;
    let mut invalid = false;
    // Mostly a single reason to refuse it, at times several or none.
    let flaws = match g.draw(8) {
        0 | 1 => 0,
        7 => 2 + g.below(2),
        _ => 1,
    };
    for _ in 0..flaws {
        let f = g.below(count);
        match g.weighted(&[6, 4, 12, 8, 6, 4]) {
            0 => {
                loops = true;
                let inner = if g.flip() { vec![] } else { vec![N::Ops(PLAIN[g.below(PLAIN.len())])] };
                insert(g, &mut module.funcs[f], N::Loop(inner));
            }
            1 => {
                indirect = true;
                insert(g, &mut module.funcs[f], N::CallIndirect);
            }
            2 => {
                // A call back (or to itself), often closing a cycle.
                let to = g.below(count);
                insert(g, &mut module.funcs[f], N::Call(to));
            }
            3 => {
                floats = true;
                let op = float_op(g);
                insert(g, &mut module.funcs[f], N::Raw(op));
            }
            4 => {
                let all = [Export::Missing, Export::WrongParams, Export::WrongResults, Export::NotFunction, Export::Imported];
                let e = *g.pick(&all);
                if e == Export::Imported && module.imports.is_empty() {
                    continue;
                }
                if g.flip() {
                    module.alloc = e;
                } else {
                    module.verify = e;
                }
            }
            _ => {
                // Wasm that isn't valid.
                invalid = true;
                let what = match g.draw(5) {
                    0 => "br 60".to_string(),
                    1 => "call 4000".to_string(),
                    4 => "call 70000".to_string(),
                    2 => "drop".to_string(),
                    _ => "local.get 99 drop".to_string(),
                };
                // Where it can be reached, or else it may be valid.
                module.funcs[f].insert(0, N::Raw(what));
            }
        }
    }
    let graph = module.graph();
    let cyclic: Vec<usize> = (0..count).filter(|f| reaches(&graph, *f, *f)).collect();
    let exports = module.alloc != Export::Right || module.verify != Export::Right;
    let bad = loops || indirect || floats || exports || invalid || !cyclic.is_empty();
    let wat = module.wat();
    g.describe(wat.clone());
    let wasm = wat::parse_str(&wat).expect("env: wat");
    let r = validate(g, &message(wasm.clone(), vec!["f0".to_string()], FixedLayout::default()));
    g.nontrivial = bad;
    g.label(if bad { "refused" } else { "accepted" });
    let own = |e: Export| e != Export::Right;
    match &r {
        Ok(()) => check!(
            !bad,
            "accepted",
            "accepted although loop={} call_indirect={} floats={} cycles={:?} alloc={:?} verify={:?} invalid={}: {}",
            loops,
            indirect,
            floats,
            cyclic,
            module.alloc,
            module.verify,
            invalid,
            wat
        ),
        Err(e) => {
            check!(bad, "rejected", "a valid template is refused with {:?}: {}", e, wat);
            let justified = match e {
                ValidateError::FixedGas(FixedGasError::LoopNotAllowed) => loops,
                ValidateError::FixedGas(FixedGasError::CallIndirectNotAllowed) => indirect,
                ValidateError::FixedGas(FixedGasError::RecursiveCall { func, .. }) => {
                    let f = func.0 as usize - module.imports.len();
                    f < count && graph[f].contains(&f)
                }
                ValidateError::FixedGas(FixedGasError::CallCycle(_)) => !cyclic.is_empty(),
                ValidateError::Program(ProgramError::FloatsNotAllowed) => floats,
                ValidateError::Program(ProgramError::FunctionNotFound(n)) => {
                    (n == "svm_alloc" && module.alloc == Export::Missing) || (n == "svm_verify" && module.verify == Export::Missing)
                }
                ValidateError::Program(ProgramError::InvalidExportFunctionSignature(n)) => {
                    (n == "svm_alloc" && own(module.alloc)) || (n == "svm_verify" && own(module.verify))
                }
                ValidateError::Program(ProgramError::InvalidExportKind) => exports,
                ValidateError::Program(ProgramError::InvalidWasm) => invalid,
                _ => false,
            };
            check!(
                justified,
                "wrong-reason",
                "refused with {:?}, but loop={} call_indirect={} floats={} cycles={:?} alloc={:?} verify={:?} invalid={}: {}",
                e,
                loops,
                indirect,
                floats,
                cyclic,
                module.alloc,
                module.verify,
                invalid,
                wat
            );
        }
    }
    // The cycle that is reported on demand is one.
    if !cyclic.is_empty() && !loops && !indirect && !floats && !invalid {
        if let Ok(program) = Program::new(&wasm, false) {
            match svm_gas::validate_wasm(&program, true) {
                Err(FixedGasError::CallCycle(GraphCycles::HasCycles(c))) => {
                    g.label("cycles-reported");
                    check!(is_cycle(&graph, &c, module.imports.len()), "not-a-cycle", "{:?} is reported as a cycle of {:?}: {}", c, graph, wat);
                }
                Err(FixedGasError::RecursiveCall { .. }) => (),
                other => return crate::pbt::fail("cycle-report", format!("{:?} for a program with cycles: {}", other, wat)),
            }
        }
    }
    Ok(())
}

fn leb(out: &mut Vec<u8>, mut n: usize) {
    while n >= 0x80 {
        out.push(n as u8 | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}

/// A module in the binary format: the text format takes too long for so many functions.
fn many_functions(name: &str, imported: usize, funcs: &[Vec<u8>]) -> Vec<u8> {
    let mut wasm = b"\0asm\x01\0\0\0".to_vec();
    let mut section = |id: u8, count: usize, items: Vec<u8>| {
        let mut body = vec![];
        leb(&mut body, count);
        body.extend(items);
        wasm.push(id);
        leb(&mut wasm, body.len());
        wasm.extend(body);
    };
    section(1, 3, vec![0x60, 0, 0, 0x60, 1, 0x7f, 1, 0x7f, 0x60, 0, 1, 0x7f]);
    let mut imports = vec![];
    for _ in 0..imported {
        imports.push(3);
        imports.extend(b"svm");
        imports.push(name.len() as u8);
        imports.extend(name.bytes());
        imports.extend([0, 0]);
    }
    section(2, imported, imports);
    let mut types = vec![0; funcs.len()];
    types.extend([1, 2]);
    section(3, types.len(), types);
    section(5, 1, vec![0, 1]);
    let mut exports = vec![];
    for (i, name) in ["svm_alloc", "svm_verify", "f0"].iter().enumerate() {
        exports.push(name.len() as u8);
        exports.extend(name.bytes());
        exports.push(0);
        leb(&mut exports, if i == 2 { imported } else { imported + funcs.len() + i });
    }
    section(7, 3, exports);
    let mut code = vec![];
    for f in funcs {
        // With a local.
        leb(&mut code, f.len() + 4);
        code.extend([1, 1, 0x7f]);
        code.extend(f);
        code.push(0x0b);
    }
    for _ in 0..2 {
        code.extend([4, 0, 0x41, 0, 0x0b]);
    }
    section(10, funcs.len() + 2, code);
    wasm
}

/// Programs with about as many functions as are allowed, or exactly: own and imported ones count.
fn limits_case(g: &mut Ctx) -> R {
    const MAX: usize = u16::MAX as usize;
    let total = match g.draw(8) {
        0..=2 => MAX,
        3..=5 => MAX + 1,
        6 => MAX - g.below(3),
        _ => MAX + 1 + g.below(40_000),
    };
    let imported = match g.draw(6) {
        0 => 0,
        1 => 1 + g.below(3),
        2 => g.below(300),
        3 => MAX - 2 - g.below(3),
        _ => g.below(MAX - 2),
    };
    // Two of its own are `svm_alloc` and `svm_verify`.
    let imported = imported.min(total - 2);
    let count = total - imported - 2;
    let name = g.pick(IMPORTS).to_string();
    // The code of each.
    let mut funcs: Vec<Vec<u8>> = vec![vec![]; count];
    let mut looped = false;
    let mut edges: Vec<(usize, usize)> = vec![];
    if count > 4 {
        // Calls among a few of the functions, the last ones included.
        let mut some: Vec<usize> = (0..6).map(|_| g.below(count)).collect();
        some.extend([0, count - 1, count - 2]);
        some.sort_unstable();
        some.dedup();
        for i in 1..some.len() {
            let (a, b) = (some[i - 1], some[i]);
            let edge = if g.flip() { (a, b) } else { (b, a) };
            edges.push(edge);
        }
        // Along a path of functions there is no cycle but with one more call.
        if g.one_in(3) {
            edges.push((*g.pick(&some), *g.pick(&some)));
        }
        if g.one_in(5) {
            looped = true;
            funcs[count - 1].extend([0x03, 0x40, 0x0b]);
        }
        for (a, b) in &edges {
            funcs[*a].push(0x10);
            leb(&mut funcs[*a], imported + b);
        }
    }
    let mut graph: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (a, b) in &edges {
        graph.entry(*a).or_default().insert(*b);
    }
    let reach = |from: usize| {
        let (mut seen, mut todo) = (BTreeSet::new(), vec![from]);
        while let Some(f) = todo.pop() {
            for t in graph.get(&f).into_iter().flatten() {
                if seen.insert(*t) {
                    todo.push(*t);
                }
            }
        }
        seen.contains(&from)
    };
    let cyclic = edges.iter().any(|(a, _)| reach(*a));
    let itself = edges.iter().any(|(a, b)| a == b);
    let what = format!("{} imports, {} functions, calls {:?}, loop in the last {}", imported, count + 2, edges, looped);
    g.describe(what.clone());
    let wasm = many_functions(&name, imported, &funcs);
    let bad = total > MAX || looped || cyclic;
    g.nontrivial = true;
    g.label(if bad { "refused" } else { "accepted" });
    g.label_if(total > MAX, "too-many");
    match validate(g, &message(wasm, vec!["f0".to_string()], FixedLayout::default())) {
        Ok(()) => check!(!bad, "limit-accepted", "accepted with {}", what),
        Err(e) => {
            let justified = match &e {
                ValidateError::Program(ProgramError::FunctionIndexTooLarge) => total > MAX,
                ValidateError::FixedGas(FixedGasError::LoopNotAllowed) => looped,
                ValidateError::FixedGas(FixedGasError::RecursiveCall { .. }) => itself,
                ValidateError::FixedGas(FixedGasError::CallCycle(_)) => cyclic,
                _ => false,
            };
            check!(justified, "limit-refused", "refused with {:?}: {}", e, what);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// V01: hostile templates
// ---------------------------------------------------------------------------------------------

fn mutate(g: &mut Ctx, bytes: &mut Vec<u8>) {
    let n = 1 + g.size(4);
    for _ in 0..n {
        if bytes.is_empty() {
            return;
        }
        let at = g.below(bytes.len());
        match g.draw(6) {
            0 | 1 => bytes[at] = g.draw(256) as u8,
            2 => bytes[at] = bytes[at].wrapping_add(1),
            3 => {
                bytes.remove(at);
            }
            4 => bytes.insert(at, g.draw(256) as u8),
            _ => {
                let to = g.below(bytes.len());
                bytes[at] = bytes[to];
            }
        }
    }
}

fn v01_case(g: &mut Ctx) -> R {
    let mut module = Module::acyclic(g, 4);
    // Calls aren't limited by gas: a chain of doubling calls would run for ages.
    if module.funcs.len() >= 20 {
        module.funcs.iter_mut().for_each(|f| f.truncate(2));
    }
    // Imports the node knows, with their types, in some cases.
    if g.draw(4) < 3 {
        module.imports.clear();
        module.other_imports.clear();
        for f in &mut module.funcs {
            strip_imports(f);
        }
    }
    let mut extras = vec![];
    for _ in 0..g.below(3) {
        extras.push(match g.draw(12) {
            0 => "(start 0) ".to_string(),
            1 => format!("(data (i32.const {}) \"abc\") ", g.int(32) as i32),
            2 => format!("(elem (i32.const {}) 0) ", g.int(32) as i32),
            3 => "(export \"again\" (func 0)) ".to_string(),
            4 => "(func (export \"arg\") (param i32) ) ".to_string(),
            5 => "(func (export \"deep\") block block block block end end end end) ".to_string(),
            6 => "(func (export \"many\") (local i64 i64 i64 i64 i64) i32.const 1 br_if 0 unreachable) ".to_string(),
            7 => "(global (export \"glob\") i64 (i64.const 3)) ".to_string(),
            8 => "(func (export \"div\") i32.const 1 i32.const 0 i32.div_u drop) ".to_string(),
            9 => "(func (export \"oob\") i32.const -1 i32.load drop) ".to_string(),
            10 => "(func (export \"grow\") i32.const 70000 memory.grow drop) ".to_string(),
            _ => "(func (export \"tbl\") (local i32) block block local.get 0 br_table 0 1 0 1 2 end end) ".to_string(),
        });
    }
    module.extra = extras.concat();
    if g.one_in(6) && !module.imports.is_empty() {
        let e = *g.pick(&[Export::Imported, Export::NotFunction]);
        if g.flip() {
            module.alloc = e;
        } else {
            module.verify = e;
        }
    }
    if g.one_in(5) {
        let f = g.below(module.funcs.len());
        let what = *g.pick(&["br 60", "call 4000", "drop", "local.get 99 drop", "i32.const 1 br_table 0 50 0", "unreachable drop drop", "return br 7"]);
        module.funcs[f].insert(0, N::Raw(what.to_string()));
    }
    let mut wat = module.wat();
    if g.one_in(8) {
        wat = wat.replace("(memory (export \"memory\") 1)", *g.pick(&["(memory 1)", "(memory (export \"memory\") 65536)", "(memory (export \"mem\") 0)"]));
    }
    let wasm = match wat::parse_str(&wat) {
        Ok(w) => w,
        // Two extras of one name.
        Err(_) => return Ok(()),
    };
    let mut code = wasm;
    if g.one_in(3) {
        mutate(g, &mut code);
    }
    let exported = ["f0", "f1", "again", "arg", "deep", "many", "glob", "div", "oob", "grow", "tbl", "memory", "svm_verify", "svm_alloc"];
    let mut ctors = vec![];
    for _ in 0..1 + g.below(3) {
        ctors.push(match g.draw(10) {
            0 => gens::string(g, 20),
            1..=4 => "f0".to_string(),
            _ => g.pick(&exported).to_string(),
        });
    }
    let layout = gens::fixed_layout(g);
    let mut msg = message(code, ctors.clone(), layout);
    let blind = g.one_in(6);
    if blind {
        mutate(g, &mut msg);
    }
    g.describe(format!("ctors {:?} message {} of {}", ctors, super::hex(&msg), wat));
    let path = g.scratch().join("v.sqlite");
    let mut node = Node::open(&path);
    let step = std::cell::RefCell::new(String::from("validate_deploy"));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if node.vm.validate_deploy(&msg).is_err() {
            g.label("refused");
            return;
        }
        g.label("accepted");
        g.nontrivial = true;
        let envelope = gens::envelope(g);
        let unlimited = Envelope::new(*envelope.principal(), envelope.amount(), 0, Gas::new(), 0);
        let context = gens::context(g);
        *step.borrow_mut() = "deploy".to_string();
        let receipt = node.vm.deploy(&unlimited, &msg, &context);
        let addr = match receipt.addr {
            Some(a) => a,
            None => panic!("deploying a validated template failed: {:?}", receipt.error),
        };
        let mut target = None;
        for c in &ctors {
            let data = gens::blob(g, 40);
            let spawn = SpawnAccount::new(0, &addr, "account", c, data);
            let bytes = svm_codec::Codec::encode_to_vec(&spawn);
            *step.borrow_mut() = format!("validate_spawn {}", c);
            node.vm.validate_spawn(&bytes).expect("valid spawn");
            *step.borrow_mut() = format!("spawn {}", c);
            let env = if g.flip() { &unlimited } else { &envelope };
            let r = node.vm.spawn(env, &bytes, &context);
            g.label(if r.success { "spawned" } else { "spawn-failed" });
            if r.success {
                target = r.account_addr;
            }
        }
        if let Some(target) = target {
            for name in &exported {
                if !g.one_in(3) {
                    continue;
                }
                let calldata = gens::blob(g, 40);
                let tx = Transaction { version: 0, target, func_name: name.to_string(), verifydata: vec![], calldata };
                let bytes = svm_codec::Codec::encode_to_vec(&tx);
                node.vm.validate_call(&bytes).expect("valid call");
                *step.borrow_mut() = format!("call {}", name);
                let r = node.vm.call(&unlimited, &bytes, &context);
                g.label(if r.success { "called" } else { "call-failed" });
                *step.borrow_mut() = format!("verify {}", name);
                let _ = node.vm.verify(&unlimited, &bytes, &context);
            }
        }
        *step.borrow_mut() = "commit".to_string();
        node.vm.commit().expect("commit");
    }));
    if r.is_err() {
        let why = crate::runner::take_last_panic();
        let step = step.into_inner();
        let kind = step.split(' ').next().unwrap().to_string();
        return crate::pbt::fail(format!("panic-in-{}", kind), format!("{} panics: {:?}", step, why));
    }
    Ok(())
}

fn strip_imports(seq: &mut Vec<N>) {
    seq.retain(|n| !matches!(n, N::Import(_)));
    for n in seq {
        match n {
            N::Block(b) | N::Loop(b) => strip_imports(b),
            N::If(t, e) => {
                strip_imports(t);
                if let Some(e) = e {
                    strip_imports(e);
                }
            }
            N::IfValue(t, e) => {
                strip_imports(t);
                strip_imports(e);
            }
            _ => (),
        }
    }
}

/// A module for the command line: whether it is one a node could run, and the prices of its
/// functions for a price of 1 per instruction and the given ones of imports.
pub fn cli_module(g: &mut Ctx, import_price: &dyn Fn(&str) -> Option<usize>) -> (String, Option<Vec<(usize, usize)>>) {
    let mut module = Module::acyclic(g, 5);
    if module.imports.iter().any(|(m, n)| m != "svm" || import_price(n).is_none()) {
        module.imports.clear();
        module.other_imports.clear();
        for f in &mut module.funcs {
            strip_imports(f);
        }
    }
    let count = module.funcs.len();
    let mut bad = false;
    if g.flip() {
        let f = g.below(count);
        match g.draw(4) {
            0 => {
                bad = true;
                insert(g, &mut module.funcs[f], N::Loop(vec![]));
            }
            1 => {
                bad = true;
                insert(g, &mut module.funcs[f], N::CallIndirect);
            }
            2 => {
                bad = true;
                let op = float_op(g);
                insert(g, &mut module.funcs[f], N::Raw(op));
            }
            _ => {
                let to = g.below(count);
                insert(g, &mut module.funcs[f], N::Call(to));
            }
        }
    }
    let graph = module.graph();
    bad |= (0..count).any(|f| reaches(&graph, f, f));
    if bad {
        return (module.wat(), None);
    }
    let import_prices: Vec<usize> = module.imports.iter().map(|(_, n)| import_price(n).unwrap()).collect();
    let op = |_: &str| 1;
    let mut oracle = Oracle { op: &op, imports: &import_prices, funcs: vec![None; count] };
    while oracle.funcs.iter().any(|p| p.is_none()) {
        for f in 0..count {
            if oracle.funcs[f].is_none() && graph[f].iter().all(|c| oracle.funcs[*c].is_some()) {
                oracle.funcs[f] = Some(oracle.most(&module.funcs[f], 0, &mut vec![0]));
            }
        }
    }
    let base = module.imports.len();
    let prices = (0..count).map(|f| (base + f, oracle.funcs[f].unwrap())).collect();
    (module.wat(), Some(prices))
}

pub fn all() -> Vec<Property> {
    let prop = |id, rule, assumptions, suites| Property { id, level: "exploration", rule, assumptions, suites };
    vec![
        prop(
            "G01",
            "Generated modules (1-7 functions of nested blocks, conditionals, branches and calls, imports of functions and globals) with no, one or several flaws: loops, call_indirect, calls that close cycles, float instructions (each kind), missing or wrongly typed svm_alloc and svm_verify, Wasm that isn't valid; and modules with about 65535 functions of which any number is imported; Runtime::validate_deploy must accept exactly the flawless ones and refuse others for a reason that applies. Non-trivial: flawed.",
            &["flaws are placed in generated code of structured, type-correct Wasm; bounded function sizes"][..],
            vec![
                Suite { name: "validation", quick: 150_000, thorough: 4_000_000, chunk: 500, case: g01_case },
                Suite { name: "limits", quick: 64, thorough: 3_000, chunk: 8, case: limits_case },
            ],
        ),
        prop(
            "G02",
            "Generated modules without cycles; the price of every function, with the V0 prices and with generated ones, must equal the maximum over all paths computed recursively over the structure of the code (or the largest number of 64 bits, if less), and be at least the cost of each of three simulated executions. large: functions of 50-22000 nested blocks, table targets, or conditionals in a row or nested, built along with their price. Non-trivial: a function has a jump; any large one.",
            &["bounded function sizes (up to 25 nodes) and up to 6 functions"][..],
            vec![
                Suite { name: "pricing", quick: 110_000, thorough: 3_000_000, chunk: 1000, case: g02_case },
                Suite { name: "large", quick: 800, thorough: 20_000, chunk: 10, case: g02_large_case },
            ],
        ),
        prop(
            "V01",
            "Hostile templates (start functions, re-exported imports, data and table segments, invalid branches and calls, mutated code and messages, any layouts and constructors): validate_deploy must return, and whatever it accepts must go through deploy, spawn of each constructor, call and verify of exported names and commit with a receipt and no panic. Non-trivial: accepted.",
            &["each worker process runs on one CPU"][..],
            vec![Suite { name: "hostile", quick: 24_000, thorough: 600_000, chunk: 100, case: v01_case }],
        ),
    ]
}


