//! Generated templates, a model of what they do, and histories of transactions run on a node and
//! on the model.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::Arc;

use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_runtime::{compute_account_addr, PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::*;
use tokio::runtime::Runtime as Tokio;

use crate::gens;
use crate::pbt::{fail, Ctx, Fail, R};
use crate::check;

// ---------------------------------------------------------------------------------------------
// Templates
// ---------------------------------------------------------------------------------------------

/// Where memory is used: constants, then what reads put there, then the calldata.
const CONSTS: u32 = 0x100;
const OUT: u32 = 0x4000;
const OUT_LEN: u32 = 0x1000;
const CALLDATA: u32 = 0x8000;
const MEMORY: u32 = 0x10000;

#[derive(Clone, Debug)]
pub enum Ad {
    Const([u8; 20]),
    /// 20 bytes of the calldata.
    Arg(u32),
    /// The last 20 bytes of the memory.
    End,
}

#[derive(Clone, Debug)]
pub enum Val {
    Const(u64),
    /// 8 bytes of the calldata.
    Arg(u32),
}

#[derive(Clone, Debug)]
pub enum Op {
    Set32(u32, Val),
    Set64(u32, Val),
    /// A variable and where to put what it holds.
    Get32(u32, u32),
    Get64(u32, u32),
    Load160(u32, u32),
    Store160(u32, Ad),
    Log(Vec<u8>),
    LogOut(u32, u32),
    LogCalldata,
    Transfer(Ad, Ad, Val),
    RetOut(u32),
    RetCalldata,
    /// Copies a variable to the end of the memory.
    LoadEnd(u32),
    /// The last bytes of the memory.
    LogEnd(u32),
    RetEnd(u32),
    /// Outside of the memory, or too much of it, in one of several ways.
    RetOob(u32),
    LogOob(u32),
    LoadOob(u32, u32),
    StoreOob(u32, u32),
    TransferOob(u32),
    Unreachable,
    DivZero,
    /// Whether the low 32 bits of the argument are below a constant.
    If(u32, u32, Vec<Op>, Vec<Op>),
    /// A helper function.
    Call(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Alloc {
    Plain,
    Trap,
    Storage,
    OutOfBounds,
    Write,
    Transfer,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FuncKind {
    Normal,
    /// Takes a parameter or returns a value.
    BadSignature,
    /// Not exported.
    Absent,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ctor: bool,
    pub kind: FuncKind,
    pub ops: Vec<Op>,
    pub price: u64,
}

/// Why no instance of a template can be made.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Broken {
    No,
    /// A data segment outside of the memory.
    Data,
    /// A start function that traps.
    Start,
    /// An import that does not exist.
    Import,
    /// An import of another type than its own.
    ImportType,
}

#[derive(Clone)]
pub struct Tmpl {
    pub addr: TemplateAddr,
    pub first: u32,
    pub sizes: Vec<u32>,
    pub funcs: Vec<Func>,
    pub helpers: Vec<Vec<Op>>,
    pub alloc: Alloc,
    pub broken: Broken,
    pub template: Template,
    pub message: Vec<u8>,
    pub wat: String,
}

/// What a generated function may contain.
#[derive(Clone, Copy)]
pub struct Profile {
    pub storage: u64,
    pub transfer: u64,
    pub log: u64,
    pub trap: u64,
    pub branch: u64,
    pub helper: u64,
    /// One in so many variables is a wrong one (0: none).
    pub wrong_var: u64,
    /// One in so many templates has an unusual `svm_alloc` (0: none).
    pub odd_alloc: u64,
    pub max_ops: usize,
    /// Whether `svm_verify` may be any function.
    pub free_verify: bool,
}

struct Emit<'a> {
    consts: &'a mut Vec<u8>,
    text: String,
    helper_prices: Vec<u64>,
}

impl<'a> Emit<'a> {
    fn constant(&mut self, bytes: &[u8]) -> u32 {
        let at = CONSTS + self.consts.len() as u32;
        self.consts.extend_from_slice(bytes);
        at
    }

    fn line(&mut self, s: &str) {
        self.text.push_str("    ");
        self.text.push_str(s);
        self.text.push('\n');
    }

    fn import_price(name: &str) -> u64 {
        match name {
            "calldata_offset" | "calldata_len" => 10,
            "set_returndata" => 20,
            "get32" => 100,
            "set32" => 1_000_000,
            "get64" => 200,
            "set64" => 2_000_000,
            "load160" => 500,
            "store160" => 5_000_000,
            "log" => 3_000,
            _ => 1000,
        }
    }

    /// Every line is an instruction of price 1, or a call of a host function.
    fn seq(&mut self, lines: &[&str]) -> u64 {
        let mut price = 0;
        for l in lines {
            match l.strip_prefix("call $svm_") {
                Some(name) => price += Self::import_price(name),
                None => price += 1,
            }
            self.line(l);
        }
        price
    }

    fn ad(&mut self, a: &Ad) -> u64 {
        match a {
            Ad::Const(bytes) => {
                let at = self.constant(bytes);
                self.seq(&[&format!("i32.const {}", at)])
            }
            Ad::Arg(off) => self.seq(&["call $svm_calldata_offset", &format!("i32.const {}", off), "i32.add"]),
            Ad::End => self.seq(&[&format!("i32.const {}", MEMORY - 20)]),
        }
    }

    fn val64(&mut self, v: &Val) -> u64 {
        match v {
            Val::Const(c) => self.seq(&[&format!("i64.const {}", *c as i64)]),
            Val::Arg(off) => self.seq(&["call $svm_calldata_offset", &format!("i64.load offset={} align=1", off)]),
        }
    }

    fn val32(&mut self, v: &Val) -> u64 {
        match v {
            Val::Const(c) => self.seq(&[&format!("i32.const {}", *c as u32 as i32)]),
            Val::Arg(off) => self.seq(&["call $svm_calldata_offset", &format!("i32.load offset={} align=1", off)]),
        }
    }

    /// The highest price of a path that ends within, and of one that goes on.
    fn ops(&mut self, ops: &[Op]) -> (u64, Option<u64>) {
        let mut ended = 0;
        let mut on = 0;
        for op in ops {
            match op {
                Op::If(arg, limit, a, b) => {
                    on += self.seq(&[
                        "call $svm_calldata_offset",
                        &format!("i32.load offset={} align=1", arg),
                        &format!("i32.const {}", *limit as i32),
                        "i32.lt_u",
                    ]);
                    self.line("if");
                    let (ea, oa) = self.ops(a);
                    self.line("else");
                    let (eb, ob) = self.ops(b);
                    self.line("end");
                    ended = ended.max(on + ea).max(on + eb);
                    match oa.max(ob) {
                        Some(x) => on += x,
                        None => {
                            self.line("unreachable");
                            return (ended, None);
                        }
                    }
                }
                Op::Unreachable => {
                    self.line("unreachable");
                    return (ended.max(on), None);
                }
                op => on += self.op(op),
            }
        }
        (ended, Some(on))
    }

    fn op(&mut self, op: &Op) -> u64 {
        match op {
            Op::Set32(var, v) => {
                let p = self.seq(&[&format!("i32.const {}", *var as i32)]);
                p + self.val32(v) + self.seq(&["call $svm_set32"])
            }
            Op::Set64(var, v) => {
                let p = self.seq(&[&format!("i32.const {}", *var as i32)]);
                p + self.val64(v) + self.seq(&["call $svm_set64"])
            }
            Op::Get32(var, at) => self.seq(&[
                &format!("i32.const {}", OUT + at),
                &format!("i32.const {}", *var as i32),
                "call $svm_get32",
                "i32.store align=1",
            ]),
            Op::Get64(var, at) => self.seq(&[
                &format!("i32.const {}", OUT + at),
                &format!("i32.const {}", *var as i32),
                "call $svm_get64",
                "i64.store align=1",
            ]),
            Op::Load160(var, at) => self.seq(&[
                &format!("i32.const {}", *var as i32),
                &format!("i32.const {}", OUT + at),
                "call $svm_load160",
            ]),
            Op::LoadEnd(var) => self.seq(&[
                &format!("i32.const {}", *var as i32),
                &format!("i32.const {}", MEMORY - 20),
                "call $svm_load160",
            ]),
            Op::LogEnd(len) => self.seq(&[&format!("i32.const {}", MEMORY - len), &format!("i32.const {}", len), "call $svm_log"]),
            Op::RetEnd(len) => self.seq(&[&format!("i32.const {}", MEMORY - len), &format!("i32.const {}", len), "call $svm_set_returndata"]),
            Op::LoadOob(var, at) => self.seq(&[&format!("i32.const {}", *var as i32), &format!("i32.const {}", *at as i32), "call $svm_load160"]),
            Op::StoreOob(var, at) => self.seq(&[&format!("i32.const {}", *at as i32), &format!("i32.const {}", *var as i32), "call $svm_store160"]),
            Op::TransferOob(at) => {
                self.seq(&["call $svm_calldata_offset", &format!("i32.const {}", *at as i32), "i64.const 1", "call $svm_transfer"])
            }
            Op::Store160(var, a) => {
                let p = self.ad(a);
                p + self.seq(&[&format!("i32.const {}", *var as i32), "call $svm_store160"])
            }
            Op::Log(bytes) => {
                let at = self.constant(bytes);
                self.seq(&[&format!("i32.const {}", at), &format!("i32.const {}", bytes.len()), "call $svm_log"])
            }
            Op::LogOut(at, len) => self.seq(&[&format!("i32.const {}", OUT + at), &format!("i32.const {}", len), "call $svm_log"]),
            Op::LogCalldata => self.seq(&["call $svm_calldata_offset", "call $svm_calldata_len", "call $svm_log"]),
            Op::LogOob(k) => {
                let (at, n) = oob(*k);
                self.seq(&[&format!("i32.const {}", at as i32), &format!("i32.const {}", n as i32), "call $svm_log"])
            }
            Op::Transfer(src, dst, v) => self.ad(src) + self.ad(dst) + self.val64(v) + self.seq(&["call $svm_transfer"]),
            Op::RetOut(len) => self.seq(&[&format!("i32.const {}", OUT), &format!("i32.const {}", len), "call $svm_set_returndata"]),
            Op::RetCalldata => self.seq(&["call $svm_calldata_offset", "call $svm_calldata_len", "call $svm_set_returndata"]),
            Op::RetOob(k) => {
                let (at, n) = oob(*k);
                self.seq(&[&format!("i32.const {}", at as i32), &format!("i32.const {}", n as i32), "call $svm_set_returndata"])
            }
            Op::DivZero => self.seq(&["i32.const 1", "i32.const 0", "i32.div_u", "drop"]),
            Op::Call(h) => {
                self.line(&format!("call $helper{}", h));
                self.helper_prices[*h]
            }
            Op::If(..) | Op::Unreachable => unreachable!(),
        }
    }
}

/// A part of the memory that is not within it.
fn oob(k: u32) -> (u32, u32) {
    match k {
        0 => (MEMORY - 3, 4),
        1 => (MEMORY, 1),
        2 => (u32::MAX, 2),
        3 => (1, u32::MAX),
        4 => (u32::MAX - 3, 12),
        5 => (0, MEMORY + 1),
        6 => (MEMORY - 8, 9),
        // Within the memory, but more than a receipt can hold.
        _ => (0, MEMORY),
    }
}

/// Where 20 bytes are not within the memory.
fn oob20(g: &mut Ctx) -> u32 {
    *g.pick(&[MEMORY - 19, MEMORY - 1, MEMORY, u32::MAX, u32::MAX - 19, 1 << 31])
}

/// A wat string literal.
fn wat_bytes(bytes: &[u8]) -> String {
    let mut s = String::new();
    for b in bytes {
        let _ = write!(s, "\\{:02x}", b);
    }
    s
}

struct OpGen<'a> {
    p: Profile,
    first: u32,
    sizes: &'a [u32],
    pool: &'a [Address],
    helpers: usize,
    out: u32,
    /// Whether an address was copied to the end of the memory.
    end: bool,
}

impl<'a> OpGen<'a> {
    fn slot(&mut self, n: u32) -> u32 {
        let at = self.out;
        self.out += n;
        at
    }

    fn ad(&mut self, g: &mut Ctx, arg: u32) -> Ad {
        if g.draw(12) < if arg == 0 { 11 } else { 9 } {
            if self.end && arg > 0 && g.one_in(3) {
                return Ad::End;
            }
            Ad::Arg(arg)
        } else {
            Ad::Const(g.pick(self.pool).0)
        }
    }

    fn storage(&mut self, g: &mut Ctx) -> Op {
        let wrong = self.p.wrong_var > 0 && g.one_in(self.p.wrong_var);
        if !wrong && self.sizes.is_empty() {
            return Op::Log(b"none".to_vec());
        }
        if wrong {
            // Variables that are not there, or of another size.
            let var = match g.draw(3) {
                0 => self.first.wrapping_add(self.sizes.len() as u32),
                1 => self.first.wrapping_sub(1),
                _ => self.first.wrapping_add(g.int(32) as u32),
            };
            let size = self.sizes.get(var.wrapping_sub(self.first) as usize).copied().unwrap_or(0);
            return match g.draw(6) {
                0 => Op::Get32(var, self.slot(4)),
                1 => Op::Get64(var, self.slot(8)),
                2 if size == 0 || size > 4 => Op::Set32(var, Val::Const(g.int(32))),
                3 if size == 0 || size > 8 => Op::Set64(var, Val::Const(g.int(64))),
                4 if size == 0 || size >= 20 => Op::Load160(var, self.slot(20)),
                5 if size == 0 || size >= 20 => Op::Store160(var, Ad::Const(gens::array(g))),
                _ => Op::Get32(var, self.slot(4)),
            };
        }
        let i = g.below(self.sizes.len());
        let (var, size) = (self.first + i as u32, self.sizes[i]);
        let fits = |bits: u64, g: &mut Ctx| Val::Const(g.int(bits as u32) & (u64::MAX >> (64 - bits)));
        match size {
            1..=3 => match g.draw(4) {
                0 => Op::Get32(var, self.slot(4)),
                1 => Op::Get64(var, self.slot(8)),
                2 => Op::Set32(var, fits(8 * u64::from(size), g)),
                _ => Op::Set64(var, fits(8 * u64::from(size), g)),
            },
            4 => match g.draw(5) {
                0 => Op::Get32(var, self.slot(4)),
                1 => Op::Get64(var, self.slot(8)),
                2 => Op::Set32(var, Val::Const(g.int(32))),
                3 => Op::Set32(var, Val::Arg(48 + 8 * g.draw(3) as u32)),
                _ => Op::Set64(var, fits(32, g)),
            },
            5..=8 => match g.draw(4) {
                0 | 1 => Op::Get64(var, self.slot(8)),
                2 if size == 8 => Op::Set64(var, Val::Arg(48 + 8 * g.draw(3) as u32)),
                _ => Op::Set64(var, fits(8 * u64::from(size), g)),
            },
            20 => match g.draw(6) {
                4 => {
                    self.end = true;
                    Op::LoadEnd(var)
                }
                5 => Op::Store160(var, Ad::End),
                0 | 1 => Op::Load160(var, self.slot(20)),
                2 => Op::Store160(var, Ad::Const(gens::array(g))),
                _ => Op::Store160(var, Ad::Arg(g.draw(40) as u32)),
            },
            // Only wrong uses of the others.
            _ => Op::Log(b"big".to_vec()),
        }
    }

    fn ops(&mut self, g: &mut Ctx, depth: usize, in_helper: bool) -> Vec<Op> {
        let n = if depth == 0 { 1 + g.below(self.p.max_ops) } else { g.below(4) };
        let mut ops = vec![];
        for _ in 0..n {
            if self.out > OUT_LEN - 64 {
                break;
            }
            let p = self.p;
            let helpers = if in_helper || self.helpers == 0 { 0 } else { p.helper };
            let branch = if depth < 2 { p.branch } else { 0 };
            let op = match g.weighted(&[p.storage, p.transfer, p.log, p.trap, branch, helpers]) {
                0 => self.storage(g),
                1 => {
                    let (src, dst) = (self.ad(g, 0), self.ad(g, 20));
                    let amount = match g.draw(8) {
                        0 => Val::Const(g.int(64)),
                        1 | 2 => Val::Const(g.draw(4)),
                        _ => Val::Arg(40),
                    };
                    Op::Transfer(src, dst, amount)
                }
                2 => match g.draw(4) {
                    0 if g.one_in(4) => Op::LogEnd(1 + g.draw(20) as u32),
                    0 => Op::LogCalldata,
                    1 if g.one_in(16) => {
                        // much of the memory
                        let at = g.draw(u64::from(self.out) + 1) as u32;
                        let end = if g.flip() { MEMORY } else { CALLDATA };
                        Op::LogOut(at, 200 + g.draw(u64::from(end - OUT - at) - 199) as u32)
                    }
                    1 if self.out > 0 => {
                        let at = g.draw(u64::from(self.out)) as u32;
                        Op::LogOut(at, g.draw(u64::from(self.out - at) + 1) as u32)
                    }
                    _ => Op::Log(gens::blob(g, 24)),
                },
                3 => match g.draw(6) {
                    0 | 1 => Op::Unreachable,
                    2 => Op::DivZero,
                    3 => Op::TransferOob(oob20(g)),
                    4 if self.sizes.contains(&20) => {
                        let var = self.first + self.sizes.iter().position(|s| *s == 20).unwrap() as u32;
                        if g.flip() {
                            Op::LoadOob(var, oob20(g))
                        } else {
                            Op::StoreOob(var, oob20(g))
                        }
                    }
                    _ => Op::LogOob(g.draw(8) as u32),
                },
                4 => {
                    let (arg, limit) = (48 + 8 * g.draw(3) as u32, g.int(32) as u32);
                    Op::If(arg, limit, self.ops(g, depth + 1, in_helper), self.ops(g, depth + 1, in_helper))
                }
                _ => Op::Call(g.below(self.helpers)),
            };
            let stop = matches!(op, Op::Unreachable);
            ops.push(op);
            if stop {
                break;
            }
        }
        ops
    }
}

const NAMES: &[&str] = &["get", "initialize", "set", "run", "a", "transfer", "svm_alloc", "memory"];

impl Tmpl {
    pub fn generate(g: &mut Ctx, p: Profile, pool: &[Address], salt: u64) -> Tmpl {
        let first = match g.draw(3) {
            0 => 0,
            1 => g.draw(6) as u32,
            _ => (g.int(31) as u32).min(i32::MAX as u32 - 64),
        };
        let n = if g.one_in(16) { 8 + g.below(70) } else { g.below(8) };
        let sizes: Vec<u32> = (0..n).map(|_| *g.pick(&[4, 8, 20, 4, 8, 1, 2, 3, 5, 7, 21, 32, 9])).collect();
        let mut gen = OpGen { p, first, sizes: &sizes, pool, helpers: 0, out: 0, end: false };
        let mut helpers = vec![];
        if p.helper > 0 {
            for _ in 0..g.below(3) {
                helpers.push(gen.ops(g, 1, true));
            }
        }
        gen.helpers = helpers.len();
        let mut funcs: Vec<Func> = vec![];
        let count = 2 + g.below(4);
        for i in 0..count {
            let mut name = match g.draw(16) {
                0 | 1 | 2 | 3 => (*g.pick(&NAMES[..6])).to_string(),
                4 if g.one_in(3) => format!("{}{}", "long".repeat(1 + g.below(60)), i),
                5 if g.one_in(3) => format!("\u{e9}\u{4e16}{}", i),
                _ => format!("f{}", i),
            };
            if funcs.iter().any(|f| f.name == name) {
                name = format!("f{}", i);
            }
            let kind = if i == 0 {
                FuncKind::Normal
            } else {
                match g.draw(12) {
                    8 => FuncKind::BadSignature,
                    7 | 9 => FuncKind::Absent,
                    _ => FuncKind::Normal,
                }
            };
            let mut ops = if kind == FuncKind::Normal { gen.ops(g, 0, false) } else { vec![] };
            if kind == FuncKind::Normal && p.log > 0 && g.one_in(40) {
                // Many logs.
                let n = match g.draw(3) {
                    0 => 10 + g.below(170),
                    1 => 250 + g.below(8),
                    _ => 10 + g.below(400),
                };
                ops = (0..n).map(|i| Op::Log(vec![i as u8; i % 4])).chain(ops).collect();
            }
            if kind == FuncKind::Normal && !matches!(ops.last(), Some(Op::Unreachable)) {
                match g.draw(6) {
                    0 => {}
                    1 => ops.push(Op::RetCalldata),
                    _ if g.one_in(16) => {
                        let end = if g.flip() { MEMORY } else { CALLDATA };
                        ops.push(Op::RetOut(200 + g.draw(u64::from(end - OUT) - 199) as u32))
                    }
                    2 if p.trap > 0 && g.one_in(3) => ops.push(Op::RetOob(g.draw(8) as u32)),
                    3 if g.one_in(4) => ops.push(Op::RetEnd(1 + g.draw(20) as u32)),
                    3 if g.one_in(3) => {
                        // Twice: the last counts.
                        ops.push(Op::RetCalldata);
                        ops.push(Op::RetOut(gen.out.max(1)));
                    }
                    _ if gen.out > 0 => ops.push(Op::RetOut(gen.out)),
                    _ => {}
                }
            }
            funcs.push(Func { name, ctor: i % 2 == 0 && (i == 0 || g.flip()), kind, ops, price: 0 });
        }
        let alloc = if p.odd_alloc > 0 && g.one_in(p.odd_alloc) {
            *g.pick(&[Alloc::Trap, Alloc::Storage, Alloc::OutOfBounds, Alloc::Write, Alloc::Transfer])
        } else {
            Alloc::Plain
        };
        // Templates that pass validation have a `svm_verify` that returns a number.
        let verify = if p.free_verify && g.flip() { Some(gen.ops(g, 1, true)) } else { None };
        let broken = if p.odd_alloc > 0 && g.one_in(p.odd_alloc) {
            *g.pick(&[Broken::Data, Broken::Start, Broken::Import, Broken::ImportType])
        } else {
            Broken::No
        };
        Self::build(g, first, sizes.clone(), funcs, helpers, alloc, broken, verify, pool, salt)
    }

    pub fn build(g: &mut Ctx, first: u32, sizes: Vec<u32>, mut funcs: Vec<Func>, helpers: Vec<Vec<Op>>, alloc: Alloc, broken: Broken, verify: Option<Vec<Op>>, pool: &[Address], salt: u64) -> Tmpl {
        let mut consts = salt.to_le_bytes().to_vec();
        let mut wat = String::from("(module\n");
        for (name, ty) in &[
            ("calldata_offset", "(result i32)"),
            ("calldata_len", "(result i32)"),
            ("set_returndata", "(param i32 i32)"),
            ("get32", "(param i32) (result i32)"),
            ("set32", "(param i32 i32)"),
            ("get64", "(param i32) (result i64)"),
            ("set64", "(param i32 i64)"),
            ("load160", "(param i32 i32)"),
            ("store160", "(param i32 i32)"),
            ("log", "(param i32 i32)"),
            ("transfer", "(param i32 i32 i64)"),
        ] {
            let _ = writeln!(wat, "  (import \"svm\" \"svm_{}\" (func $svm_{} {}))", name, name, ty);
        }
        match broken {
            Broken::Import => wat.push_str("  (import \"svm\" \"svm_nothing\" (func (param i32)))\n"),
            Broken::ImportType => wat.push_str("  (import \"svm\" \"svm_get32\" (func (param i64)))\n"),
            _ => {}
        }
        wat.push_str("  (memory (export \"memory\") 1 1)\n");
        match broken {
            Broken::Data => wat.push_str("  (data (i32.const 65535) \"ab\")\n"),
            Broken::Start => wat.push_str("  (func $start unreachable)\n  (start $start)\n"),
            _ => {}
        }
        let body = match alloc {
            Alloc::Plain => format!("i32.const {}", CALLDATA),
            Alloc::Trap => "unreachable".to_string(),
            Alloc::Storage => format!("i32.const {} call $svm_get32 drop i32.const {}", first as i32, CALLDATA),
            Alloc::OutOfBounds => format!("i32.const {}", MEMORY),
            Alloc::Write => format!("i32.const {} i64.const 77 call $svm_set64 i32.const {}", first as i32, CALLDATA),
            Alloc::Transfer => {
                let from = CONSTS + consts.len() as u32;
                consts.extend_from_slice(&pool[0].0);
                consts.extend_from_slice(&pool[1].0);
                format!("i32.const {} i32.const {} i64.const 1 call $svm_transfer i32.const {}", from, from + 20, CALLDATA)
            }
        };
        let _ = writeln!(wat, "  (func (export \"svm_alloc\") (param i32) (result i32) {})", body);
        match &verify {
            None => wat.push_str("  (func (export \"svm_verify\") (result i32) i32.const 0)\n"),
            Some(ops) => {
                let mut e = Emit { consts: &mut consts, text: String::new(), helper_prices: vec![] };
                e.ops(ops);
                let text = e.text;
                let _ = writeln!(wat, "  (func (export \"svm_verify\")\n{}  )", text);
            }
        }
        let mut helper_prices = vec![];
        for (i, ops) in helpers.iter().enumerate() {
            let mut e = Emit { consts: &mut consts, text: String::new(), helper_prices: vec![] };
            let (ended, on) = e.ops(ops);
            let text = e.text;
            helper_prices.push(ended.max(on.unwrap_or(0)));
            let _ = writeln!(wat, "  (func $helper{}\n{}  )", i, text);
        }
        for f in &mut funcs {
            match f.kind {
                FuncKind::Absent => continue,
                FuncKind::BadSignature => {
                    let sig = *g.pick(&["(param i32)", "(result i32) i32.const 1", "(param i64) (result i32) i32.const 1"]);
                    let _ = writeln!(wat, "  (func (export \"{}\") {})", f.name, sig);
                    f.price = if sig.contains("const") { 1 } else { 0 };
                    continue;
                }
                FuncKind::Normal => {}
            }
            let mut e = Emit { consts: &mut consts, text: String::new(), helper_prices: helper_prices.clone() };
            let (ended, on) = e.ops(&f.ops);
            let text = e.text;
            f.price = ended.max(on.unwrap_or(0));
            let _ = writeln!(wat, "  (func (export \"{}\")\n{}  )", f.name, text);
        }
        assert!(CONSTS + (consts.len() as u32) < OUT, "env: constants");
        let _ = writeln!(wat, "  (data (i32.const {}) \"{}\")\n)", CONSTS, wat_bytes(&consts));
        let code = wat::parse_str(&wat).unwrap_or_else(|e| panic!("env: wat {}: {}", e, wat));
        let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(if sizes.is_empty() { 0 } else { first }, &sizes)));
        let ctors = CtorsSection::new(funcs.iter().filter(|f| f.ctor).map(|f| f.name.clone()).collect());
        let header = if g.flip() { Some(HeaderSection::new(g.draw(5) as u32, gens::string(g, 10), gens::string(g, 10))) } else { None };
        let template = Template::new(CodeSection::new_fixed(code.clone(), 0), data, ctors).with_header(header);
        let mut message = vec![];
        template.sections().encode(&mut message);
        let hash = *blake3::hash(&code).as_bytes();
        Tmpl { addr: TemplateAddr::new(&hash[..20]), first, sizes, funcs, helpers, alloc, broken, template, message, wat }
    }

    /// Mostly a function that can be run.
    pub fn pick_func(&self, g: &mut Ctx, ctor: bool) -> String {
        if g.one_in(8) {
            let odd: Vec<&Func> = self.funcs.iter().filter(|f| f.ctor == ctor && f.kind != FuncKind::Normal).collect();
            if !odd.is_empty() {
                return g.pick(&odd).name.clone();
            }
        }
        let fit: Vec<&Func> = self.funcs.iter().filter(|f| f.ctor == ctor && f.kind == FuncKind::Normal).collect();
        if !fit.is_empty() && g.draw(8) < 7 {
            return g.pick(&fit).name.clone();
        }
        if g.one_in(4) {
            return (*g.pick(NAMES)).to_string();
        }
        g.pick(&self.funcs).name.clone()
    }

    pub fn spawned_addr(&self) -> Address {
        compute_account_addr(&SpawnAccount::new(0, &self.addr, "", "", vec![]))
    }
}

// ---------------------------------------------------------------------------------------------
// The model
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct MAccount {
    pub template: usize,
    pub name: String,
    pub balance: u64,
    pub counter: u128,
    pub vars: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct World {
    pub accounts: BTreeMap<[u8; 20], MAccount>,
    pub deployed: BTreeSet<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Oog,
    TemplateNotFound,
    AccountNotFound,
    FuncNotFound(String),
    FuncFailed(String),
    FuncNotCtor(String),
    FuncNotAllowed(String),
    BadSignature(String),
    /// And whether the function is there to be run at all.
    Instantiation(String, bool),
}

#[derive(Clone, Debug)]
pub struct Expected {
    pub result: Result<Vec<u8>, Kind>,
    pub logs: Vec<Vec<u8>>,
    pub touched: BTreeSet<[u8; 20]>,
}

struct Exec<'a> {
    t: &'a Tmpl,
    world: World,
    me: [u8; 20],
    calldata: Option<&'a [u8]>,
    out: Vec<u8>,
    logs: Vec<Vec<u8>>,
    touched: BTreeSet<[u8; 20]>,
    ret: Option<Vec<u8>>,
    ret_out: Option<u32>,
    ret_end: Option<u32>,
    /// The end of the memory.
    end: [u8; 20],
}

struct Trap;

impl<'a> Exec<'a> {
    fn arg(&self, off: u32, n: usize) -> Result<Vec<u8>, Trap> {
        let data = self.calldata.ok_or(Trap)?;
        Ok((0..n).map(|i| data.get(off as usize + i).copied().unwrap_or(0)).collect())
    }

    fn val(&self, v: &Val) -> Result<u64, Trap> {
        match v {
            Val::Const(c) => Ok(*c),
            Val::Arg(off) => {
                let mut b = [0; 8];
                b.copy_from_slice(&self.arg(*off, 8)?);
                Ok(u64::from_le_bytes(b))
            }
        }
    }

    fn ad(&self, a: &Ad) -> Result<[u8; 20], Trap> {
        match a {
            Ad::Const(c) => Ok(*c),
            Ad::Arg(off) => {
                let mut b = [0; 20];
                b.copy_from_slice(&self.arg(*off, 20)?);
                Ok(b)
            }
            Ad::End => Ok(self.end),
        }
    }

    fn var(&mut self, var: u32, max: usize) -> Result<&mut Vec<u8>, Trap> {
        let i = var.checked_sub(self.t.first).ok_or(Trap)? as usize;
        let account = self.world.accounts.get_mut(&self.me).ok_or(Trap)?;
        let v = account.vars.get_mut(i).ok_or(Trap)?;
        if v.len() > max {
            return Err(Trap);
        }
        Ok(v)
    }

    fn read(&mut self, var: u32, at: u32, n: usize) -> Result<(), Trap> {
        let mut bytes = self.var(var, n)?.clone();
        bytes.resize(n, 0);
        self.out[at as usize..at as usize + n].copy_from_slice(&bytes);
        Ok(())
    }

    /// What the memory holds some bytes after OUT.
    fn from_out(&self, at: u32, len: u32) -> Vec<u8> {
        let (at, end) = (at as usize, (at + len) as usize);
        if end <= self.out.len() {
            return self.out[at..end].to_vec();
        }
        let mut all = vec![0; (MEMORY - OUT) as usize];
        all[..self.out.len()].copy_from_slice(&self.out);
        let c = self.calldata.unwrap_or(&[]);
        all[(CALLDATA - OUT) as usize..][..c.len()].copy_from_slice(c);
        let n = all.len();
        all[n - 20..].copy_from_slice(&self.end);
        all[at..end].to_vec()
    }

    fn write(&mut self, var: u32, bytes: &[u8]) -> Result<(), Trap> {
        let v = self.var(var, bytes.len())?;
        let n = v.len();
        v.copy_from_slice(&bytes[..n]);
        Ok(())
    }

    fn ops(&mut self, ops: &[Op]) -> Result<(), Trap> {
        for op in ops {
            match op {
                Op::Set32(var, v) => {
                    let v = (self.val(v)? as u32).to_le_bytes();
                    self.write(*var, &v)?
                }
                Op::Set64(var, v) => {
                    let v = self.val(v)?.to_le_bytes();
                    self.write(*var, &v)?
                }
                Op::Get32(var, at) => self.read(*var, *at, 4)?,
                Op::Get64(var, at) => self.read(*var, *at, 8)?,
                Op::Load160(var, at) => self.read(*var, *at, 20)?,
                Op::Store160(var, a) => {
                    let a = self.ad(a)?;
                    self.write(*var, &a)?
                }
                // A receipt holds up to 255 logs.
                Op::Log(_) | Op::LogOut(..) | Op::LogCalldata | Op::LogEnd(_) if self.logs.len() >= 255 => return Err(Trap),
                Op::Log(bytes) => self.logs.push(bytes.clone()),
                Op::LogOut(at, len) => self.logs.push(self.from_out(*at, *len)),
                Op::LogCalldata => self.logs.push(self.calldata.ok_or(Trap)?.to_vec()),
                Op::Transfer(src, dst, v) => {
                    let (src, dst, v) = (self.ad(src)?, self.ad(dst)?, self.val(v)?);
                    if v == 0 {
                        continue;
                    }
                    if src != self.me {
                        return Err(Trap);
                    }
                    let from = self.world.accounts.get(&src).ok_or(Trap)?.balance;
                    let to = self.world.accounts.get(&dst).ok_or(Trap)?.balance;
                    let left = from.checked_sub(v).ok_or(Trap)?;
                    if src != dst {
                        let sum = to.checked_add(v).ok_or(Trap)?;
                        self.world.accounts.get_mut(&src).unwrap().balance = left;
                        self.world.accounts.get_mut(&dst).unwrap().balance = sum;
                    }
                    self.touched.insert(src);
                    self.touched.insert(dst);
                }
                Op::RetOut(len) => {
                    self.ret = None;
                    self.ret_out = Some(*len)
                }
                Op::RetCalldata => {
                    self.ret = Some(self.calldata.ok_or(Trap)?.to_vec());
                    self.ret_out = None;
                }
                Op::LoadEnd(var) => {
                    let bytes = self.var(*var, 20)?.clone();
                    self.end.copy_from_slice(&bytes);
                }
                Op::LogEnd(len) => self.logs.push(self.end[20 - *len as usize..].to_vec()),
                Op::RetEnd(len) => self.ret_end = Some(*len),
                Op::TransferOob(_) if self.calldata.is_none() => return Err(Trap),
                Op::RetOob(_) | Op::LogOob(_) | Op::LoadOob(..) | Op::StoreOob(..) | Op::TransferOob(_) | Op::Unreachable | Op::DivZero => return Err(Trap),
                Op::If(arg, limit, a, b) => {
                    let x = self.val(&Val::Arg(*arg))? as u32;
                    self.ops(if x < *limit { a } else { b })?
                }
                Op::Call(h) => {
                    let t = self.t;
                    self.ops(&t.helpers[*h])?
                }
            }
        }
        Ok(())
    }
}

/// Runs a function of a template; gives the world after it if it succeeds.
pub fn model_run(t: &Tmpl, world: &World, me: Address, func: &str, calldata: &[u8], ctor: bool) -> (Expected, Option<World>) {
    let none = |k: Kind| (Expected { result: Err(k), logs: vec![], touched: BTreeSet::new() }, None);
    let declared = t.funcs.iter().find(|f| f.name == func);
    let is_ctor = declared.map_or(false, |f| f.ctor);
    if is_ctor && !ctor {
        return none(Kind::FuncNotAllowed(func.to_string()));
    }
    if !is_ctor && ctor {
        return none(Kind::FuncNotCtor(func.to_string()));
    }
    if t.broken != Broken::No {
        let fine = declared.map_or(false, |f| f.kind == FuncKind::Normal);
        return none(Kind::Instantiation(func.to_string(), fine));
    }
    let f = match declared {
        Some(f) if f.kind == FuncKind::Absent => return none(Kind::FuncNotFound(func.to_string())),
        Some(f) if f.kind == FuncKind::BadSignature => return none(Kind::BadSignature(func.to_string())),
        Some(f) => f,
        None if func == "svm_alloc" || func == "svm_verify" => return none(Kind::BadSignature(func.to_string())),
        None => return none(Kind::FuncNotFound(func.to_string())),
    };
    let failed = |logs| (Expected { result: Err(Kind::FuncFailed(func.to_string())), logs, touched: BTreeSet::new() }, None);
    if !calldata.is_empty() {
        let room = MEMORY - CALLDATA;
        if matches!(t.alloc, Alloc::Trap | Alloc::Storage | Alloc::Write | Alloc::Transfer) {
            return failed(vec![]);
        }
        if t.alloc == Alloc::OutOfBounds || calldata.len() > room as usize {
            return failed(vec![]);
        }
    }
    let mut e = Exec {
        t,
        world: world.clone(),
        me: me.0,
        calldata: if calldata.is_empty() { None } else { Some(calldata) },
        out: vec![0; (CALLDATA - OUT) as usize],
        logs: vec![],
        touched: BTreeSet::new(),
        ret: None,
        ret_out: None,
        ret_end: None,
        end: [0; 20],
    };
    e.touched.insert(me.0);
    match e.ops(&f.ops) {
        Err(Trap) => failed(e.logs),
        Ok(()) => {
            let ret = match (&e.ret, e.ret_out) {
                (Some(r), _) => r.clone(),
                (None, Some(len)) => e.from_out(0, len),
                (None, None) => e.end[20 - e.ret_end.unwrap_or(0) as usize..].to_vec(),
            };
            (Expected { result: Ok(ret), logs: e.logs, touched: e.touched }, Some(e.world))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// A node
// ---------------------------------------------------------------------------------------------

pub struct Node {
    pub rt: Arc<Tokio>,
    pub gs: GlobalState,
    pub vm: Runtime,
    pub path: PathBuf,
}

pub fn tokio_arc() -> Arc<Tokio> {
    Arc::new(tokio::runtime::Builder::new_current_thread().enable_all().build().expect("env: tokio"))
}

impl Node {
    pub fn open(path: &Path) -> Node {
        let rt = tokio_arc();
        let uri = format!("sqlite://{}?mode=rwc", path.display());
        let gs = rt.block_on(GlobalState::new(&uri, GenesisConfig::mainnet()));
        let prices = TemplatePriceCache::new(PriceResolverRegistry::default());
        let vm = Runtime::new(rt.clone(), gs.clone(), prices);
        Node { rt, gs, vm, path: path.to_path_buf() }
    }

    /// What the state holds about an account.
    pub fn account(&self, spec: &Spec, world: &World, addr: &Address) -> Result<Option<MAccount>, Fail> {
        let st = match self.rt.block_on(AccountStorage::load(self.gs.clone(), addr)) {
            Ok(s) => s,
            Err(svm_state::StorageError::NotFound { .. }) => return Ok(None),
            Err(e) => return fail("storage-error", format!("loading an account: {:?}", e)),
        };
        let bad = |e| Fail { sig: "storage-error".to_string(), msg: format!("reading an account: {:?}", e) };
        let template_addr = self.rt.block_on(st.template_addr()).map_err(bad)?;
        let template = match spec.templates.iter().position(|t| t.addr == template_addr) {
            Some(t) => t,
            None => return fail("account-template", format!("account {:?} is of an unknown template", addr)),
        };
        let _ = world;
        let t = &spec.templates[template];
        let mut vars = vec![];
        for i in 0..t.sizes.len() {
            vars.push(self.rt.block_on(st.get_var_vec(t.first + i as u32)).map_err(bad)?);
        }
        Ok(Some(MAccount {
            template,
            name: self.rt.block_on(st.name()).map_err(bad)?,
            balance: self.rt.block_on(st.balance()).map_err(bad)?,
            counter: self.rt.block_on(st.counter()).map_err(bad)?,
            vars,
        }))
    }

    /// The layer, or none at genesis.
    pub fn layer(&mut self) -> Option<(u64, State)> {
        let r = catch_unwind(AssertUnwindSafe(|| self.vm.current_layer()));
        if r.is_err() {
            crate::runner::take_last_panic();
        }
        r.ok().map(|(l, s)| (l.0, s))
    }
}

pub struct Spec {
    pub templates: Vec<Tmpl>,
    /// Addresses of accounts, then one that is of none.
    pub pool: Vec<Address>,
}

impl Spec {
    pub fn generate(g: &mut Ctx, p: Profile, templates: usize) -> Spec {
        let n = 2 + g.below(3);
        let mut pool: Vec<Address> = vec![];
        for i in 0..=n {
            let mut a = if g.flip() { Address([i as u8; 20]) } else { gens::addr(g) };
            a.0[19] = i as u8;
            pool.push(a);
        }
        let count = 1 + g.below(templates);
        let mut list: Vec<Tmpl> = vec![];
        for i in 0..count {
            let salt = g.draw(1 << 16) << 8 | i as u64;
            list.push(Tmpl::generate(g, p, &pool, salt));
        }
        for t in &list {
            pool.push(t.spawned_addr());
        }
        Spec { templates: list, pool }
    }

    pub fn who(&self, a: &Address) -> String {
        match self.pool.iter().position(|b| b == a) {
            Some(i) => format!("#{}", i),
            None => format!("{:?}", a),
        }
    }
}

// What a check judges -------------------------------------------------------------------------

pub const SUCCESS: u32 = 1;
pub const ERROR: u32 = 2;
pub const BALANCE: u32 = 4;
pub const VARS: u32 = 8;
pub const META: u32 = 16;
pub const RETURNDATA: u32 = 32;
pub const LOGS: u32 = 64;
pub const TOUCHED: u32 = 128;
pub const LAYERS: u32 = 256;
pub const STATE: u32 = 512;
pub const TEMPLATES: u32 = 1024;

#[derive(Clone, Copy)]
pub struct Weights {
    pub deploy: u64,
    pub spawn: u64,
    pub create: u64,
    pub call: u64,
    pub verify: u64,
    pub transfer: u64,
    pub increase: u64,
    pub commit: u64,
    pub rewind: u64,
    pub reopen: u64,
}

#[derive(Clone, Debug)]
pub enum Rec {
    Deploy(Envelope, Vec<u8>, Context),
    Spawn(Envelope, Vec<u8>, Context),
    Call(Envelope, Vec<u8>, Context),
    Verify(Envelope, Vec<u8>, Context),
    Create(Address, TemplateAddr, String, u64, u128),
    Transfer(Address, Address, u64),
    Increase(Address, u64),
    Commit,
    Rewind(u64),
    Restart,
}

pub struct Net<'s> {
    pub spec: &'s Spec,
    pub node: Node,
    pub world: World,
    pub layers: Vec<(World, State)>,
    pub uncommitted: bool,
    pub aspects: u32,
    pub log: Vec<String>,
    /// Encodings of all receipts so far.
    pub receipts: Vec<Vec<u8>>,
    /// Everything that was done, to do it again elsewhere.
    pub recs: Vec<Rec>,
    pub failures: u64,
    pub kinds: BTreeMap<String, u64>,
    pub successes: u64,
    /// Something outside of what is judged went another way than in the model.
    pub diverged: bool,
}

impl<'s> Net<'s> {
    pub fn new(spec: &'s Spec, path: &Path, aspects: u32) -> Net<'s> {
        Net {
            spec,
            node: Node::open(path),
            world: World::default(),
            layers: vec![],
            uncommitted: false,
            aspects,
            log: vec![],
            receipts: vec![],
            recs: vec![],
            failures: 0,
            kinds: BTreeMap::new(),
            successes: 0,
            diverged: false,
        }
    }

    pub fn history(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.spec.templates.iter().enumerate() {
            let _ = write!(s, "template {} (variables {}+{:?}, alloc {:?}): ", i, t.first, t.sizes, t.alloc);
            for f in &t.funcs {
                let _ = write!(s, "{}{} {:?} {:?}; ", if f.ctor { "ctor " } else { "" }, f.name, f.kind, f.ops);
            }
            if !t.helpers.is_empty() {
                let _ = write!(s, "helpers {:?}; ", t.helpers);
            }
        }
        format!("{} HISTORY: {}", s, self.log.join("; "))
    }

    fn judge(&mut self, aspect: u32, sig: &str, msg: impl FnOnce() -> String) -> R {
        if self.aspects & aspect != 0 {
            return fail(sig, msg());
        }
        self.diverged = true;
        Ok(())
    }

    pub fn deploy_all(&mut self, g: &mut Ctx) -> R {
        for t in 0..self.spec.templates.len() {
            self.deploy(g, t, Gas::new())?;
        }
        Ok(())
    }

    pub fn envelope(&self, g: &mut Ctx, gas: Gas) -> Envelope {
        let principal = *g.pick(&self.spec.pool);
        Envelope::new(principal, g.int(64), gens::u128(g), gas, g.int(32))
    }

    /// Deploys a template; the model takes the receipt's word for the gas.
    pub fn deploy(&mut self, g: &mut Ctx, t: usize, gas: Gas) -> Result<DeployReceipt, Fail> {
        let envelope = self.envelope(g, gas);
        let context = gens::context(g);
        let r = self.node.vm.deploy(&envelope, &self.spec.templates[t].message, &context);
        self.recs.push(Rec::Deploy(envelope, self.spec.templates[t].message.clone(), context));
        self.log.push(format!("deploy {} -> {}", t, r.success));
        self.receipts.push(r.encode_to_vec());
        if r.success {
            self.world.deployed.insert(t);
            self.uncommitted = true;
        }
        Ok(r)
    }

    pub fn create(&mut self, g: &mut Ctx, at: usize, t: usize, balance: u64) -> R {
        let addr = self.spec.pool[at];
        if self.world.accounts.contains_key(&addr.0) || !self.world.deployed.contains(&t) {
            return Ok(());
        }
        let name = gens::string(g, 8);
        let counter = gens::u128(g);
        self.log.push(format!("create #{} of template {} balance {}", at, t, balance));
        let tmpl = &self.spec.templates[t];
        self.recs.push(Rec::Create(addr, tmpl.addr, name.clone(), balance, counter));
        let r = self.node.vm.create_account(&addr, tmpl.addr, name.clone(), balance, counter);
        check!(r.is_ok(), "create-account", "creating an account failed");
        let vars = tmpl.sizes.iter().map(|s| vec![0; *s as usize]).collect();
        self.world.accounts.insert(addr.0, MAccount { template: t, name, balance, counter, vars });
        self.uncommitted = true;
        Ok(())
    }

    /// Calldata for generated functions: two addresses, an amount, numbers.
    pub fn calldata(&mut self, g: &mut Ctx, me: &Address) -> Vec<u8> {
        if g.one_in(16) {
            return vec![];
        }
        let src = if g.draw(8) < 7 { *me } else { *g.pick(&self.spec.pool) };
        let present: Vec<[u8; 20]> = self.world.accounts.keys().copied().collect();
        let dst = if present.is_empty() || g.draw(8) == 7 { *g.pick(&self.spec.pool) } else { Address(*g.pick(&present)) };
        let have = self.world.accounts.get(&src.0).map_or(0, |a| a.balance);
        let room = u64::MAX - self.world.accounts.get(&dst.0).map_or(0, |a| a.balance);
        let amount = if have == 0 && g.draw(4) < 3 { 0 } else if g.flip() { have.min(room) / (1 + g.draw(12)) } else { amount(g, have, room) };
        let mut data = vec![];
        data.extend_from_slice(&src.0);
        data.extend_from_slice(&dst.0);
        data.extend_from_slice(&amount.to_le_bytes());
        for _ in 0..g.below(4) {
            data.extend_from_slice(&g.int(64).to_le_bytes());
        }
        if g.one_in(16) {
            let n = g.below(data.len());
            data.truncate(n);
        }
        if g.one_in(24) {
            // More than the functions look at, up to what a message has room for.
            let len = if g.flip() { 255 - g.below(3) } else { 60 + g.below(196) };
            let step = 1 + 2 * g.draw(100) as usize;
            while data.len() < len {
                data.push((data.len() * step >> 3) as u8);
            }
        }
        data
    }

    fn check_receipt(
        &mut self,
        what: &str,
        target: &Address,
        template: &TemplateAddr,
        success: bool,
        error: &Option<RuntimeError>,
        returndata: &Option<Vec<u8>>,
        logs: &[ReceiptLog],
        touched: &std::collections::HashSet<Address>,
        exp: &Expected,
    ) -> R {
        let spec = self.spec;
        let kind = match &exp.result {
            Ok(_) => "success",
            Err(Kind::Oog) => "out-of-gas",
            Err(Kind::TemplateNotFound) => "template-not-found",
            Err(Kind::AccountNotFound) => "account-not-found",
            Err(Kind::FuncNotFound(_)) => "func-not-found",
            Err(Kind::FuncFailed(_)) => "func-failed",
            Err(Kind::FuncNotCtor(_)) => "not-ctor",
            Err(Kind::FuncNotAllowed(_)) => "ctor-called",
            Err(Kind::BadSignature(_)) => "bad-signature",
            Err(Kind::Instantiation(..)) => "not-instantiated",
        };
        *self.kinds.entry(kind.to_string()).or_insert(0) += 1;
        if success != exp.result.is_ok() {
            let (e, x) = (format!("{:?}", error), format!("{:?}", exp.result));
            return self.judge(SUCCESS, "outcome", || format!("{} should give {}, gave success={} error {}", what, x, success, e));
        }
        let got: Vec<Vec<u8>> = logs.iter().map(|l| l.as_bytes().to_vec()).collect();
        if got != exp.logs {
            let l = exp.logs.clone();
            self.judge(LOGS, "logs", || format!("{}: logs {:02x?} instead of {:02x?}", what, got, l))?;
        }
        match (&exp.result, error) {
            (Ok(ret), _) => {
                if error.is_some() {
                    self.judge(ERROR, "error", || format!("{}: succeeded with an error", what))?;
                }
                if returndata.as_ref() != Some(ret) {
                    self.judge(RETURNDATA, "returndata", || format!("{}: returned {:02x?} instead of {:02x?}", what, returndata, ret))?;
                }
                let set: BTreeSet<[u8; 20]> = touched.iter().map(|a| a.0).collect();
                if set != exp.touched {
                    self.judge(TOUCHED, "touched", || {
                        let names = |s: &BTreeSet<[u8; 20]>| s.iter().map(|a| spec.who(&Address(*a))).collect::<Vec<_>>();
                        format!("{}: touched {:?} instead of {:?}", what, names(&set), names(&exp.touched))
                    })?;
                }
            }
            (Err(kind), None) => {
                let k = kind.clone();
                self.judge(ERROR, "error", || format!("{}: failed without an error, expected {:?}", what, k))?
            }
            (Err(kind), Some(e)) => {
                let ok = match (kind, e) {
                    (Kind::Oog, RuntimeError::OOG) => true,
                    (Kind::TemplateNotFound, RuntimeError::TemplateNotFound(t)) => t == template,
                    (Kind::AccountNotFound, RuntimeError::AccountNotFound(a)) => a == target,
                    (Kind::FuncNotFound(f), RuntimeError::FuncNotFound { target: a, template: t, func }) => a == target && t == template && func == f,
                    (Kind::Instantiation(..), RuntimeError::InstantiationFailed { target: a, template: t, .. }) => a == target && t == template,
                    // Two things are wrong: either may be named.
                    (Kind::Instantiation(f, false), RuntimeError::FuncNotFound { target: a, template: t, func }) => a == target && t == template && func == f,
                    (Kind::Instantiation(f, false), RuntimeError::FuncInvalidSignature { target: a, template: t, func }) => a == target && t == template && func == f,
                    (Kind::BadSignature(f), RuntimeError::FuncInvalidSignature { target: a, template: t, func }) => a == target && t == template && func == f,
                    (Kind::FuncNotCtor(f), RuntimeError::FuncNotCtor { template: t, func }) => t == template && func == f,
                    (Kind::FuncNotAllowed(f), RuntimeError::FuncNotAllowed { target: a, template: t, func, .. }) => a == target && t == template && func == f,
                    (Kind::FuncFailed(f), RuntimeError::FuncFailed { target: a, template: t, func, .. }) => {
                        a == target && t == template && (func == f || func == "svm_alloc")
                    }
                    _ => false,
                };
                if !ok {
                    let (e, k) = (e.clone(), kind.clone());
                    self.judge(ERROR, "error", || format!("{}: error {:?} instead of {:?}", what, e, k))?;
                }
            }
        }
        Ok(())
    }

    /// After a transaction: a new layer if it succeeded, else everything as before.
    fn after(&mut self, what: &str, success: bool, new: Option<World>, new_state: &Option<State>) -> R {
        if self.diverged {
            return Ok(());
        }
        if success {
            self.successes += 1;
            self.world = new.expect("model");
            self.uncommitted = false;
            let n = self.layers.len() as u64;
            let layer = self.node.layer();
            match (layer, new_state) {
                (Some((l, s)), Some(ns)) if l == n && s == *ns => self.layers.push((self.world.clone(), s)),
                (Some((l, s)), _) if l == n => {
                    let ns = new_state.clone();
                    self.judge(STATE, "new-state", || format!("{}: the receipt has state {:?}, the layer {:?}", what, ns, s))?;
                    self.layers.push((self.world.clone(), s));
                }
                (other, _) => {
                    return self.judge(LAYERS, "layer", || format!("{}: expected layer {}, got {:?}", what, n, other));
                }
            }
        } else {
            self.failures += 1;
            if new_state.is_some() {
                self.judge(STATE, "new-state", || format!("{}: failed with a new state", what))?;
            }
            let layer = self.node.layer();
            let expected = self.layers.len().checked_sub(1).map(|n| (n as u64, self.layers[n].1));
            if layer != expected {
                self.judge(LAYERS, "layer", || format!("{}: failed, and the layer is {:?} instead of {:?}", what, layer, expected))?;
            }
        }
        Ok(())
    }

    pub fn call(&mut self, g: &mut Ctx, target: Address, func: &str, calldata: &[u8], verify: bool) -> Result<CallReceipt, Fail> {
        let gas = call_gas(g);
        let envelope = self.envelope(g, gas);
        let context = gens::context(g);
        let verifydata = if verify || g.one_in(4) { let n = if g.one_in(4) { 255 } else { 12 }; gens::blob(g, n) } else { vec![] };
        let tx = Transaction { version: g.int(16) as u16, target, func_name: func.to_string(), verifydata, calldata: calldata.to_vec() };
        let message = tx.encode_to_vec();
        let what = format!("{} {} of {} with {}", if verify { "verify" } else { "call" }, func, self.spec.who(&target), crate::suites::hex(calldata));
        let r = if verify {
            self.node.vm.verify(&envelope, &message, &context)
        } else {
            self.node.vm.call(&envelope, &message, &context)
        };
        self.log.push(format!("{} -> {}", what, r.success));
        self.receipts.push(r.encode_to_vec());
        let rec = (envelope.clone(), message.clone(), context.clone());
        self.recs.push(if verify { Rec::Verify(rec.0, rec.1, rec.2) } else { Rec::Call(rec.0, rec.1, rec.2) });
        if verify {
            // Whatever the outcome, verification changes nothing.
            if r.success {
                let world = self.world.clone();
                if self.node.layer().map_or(0, |(l, _)| l + 1) as usize > self.layers.len() {
                    self.after(&what, true, Some(world), &r.new_state)?;
                }
            } else {
                self.after(&what, false, None, &r.new_state)?;
            }
            return Ok(r);
        }
        let spec = self.spec;
        let (exp, new, template) = match self.world.accounts.get(&target.0) {
            None => (Expected { result: Err(Kind::AccountNotFound), logs: vec![], touched: BTreeSet::new() }, None, TemplateAddr::zeros()),
            Some(a) => {
                let t = &spec.templates[a.template];
                let (exp, new) = model_run(t, &self.world, target, func, calldata, false);
                (exp, new, t.addr)
            }
        };
        self.check_receipt(&what, &target, &template, r.success, &r.error, &r.returndata, &r.logs, &r.touched_accounts, &exp)?;
        self.after(&what, r.success, new, &r.new_state)?;
        Ok(r)
    }

    /// Spawns an account. `gas`: none is enough.
    pub fn spawn(&mut self, g: &mut Ctx, t: usize, func: &str, calldata: &[u8], name: &str, gas: Gas) -> Result<SpawnReceipt, Fail> {
        let spec = self.spec;
        let tmpl = &spec.templates[t];
        let envelope = self.envelope(g, gas);
        let context = gens::context(g);
        let spawn = SpawnAccount::new(g.int(16) as u16, &tmpl.addr, name, func, calldata.to_vec());
        let message = spawn.encode_to_vec();
        let target = tmpl.spawned_addr();
        let what = format!("spawn of template {} by {} with {} and gas {:?}", t, func, crate::suites::hex(calldata), gas);
        let r = self.node.vm.spawn(&envelope, &message, &context);
        self.log.push(format!("{} -> {}", what, r.success));
        self.receipts.push(r.encode_to_vec());
        self.recs.push(Rec::Spawn(envelope.clone(), message.clone(), context.clone()));
        let (mut exp, new) = if !self.world.deployed.contains(&t) {
            (Expected { result: Err(Kind::TemplateNotFound), logs: vec![], touched: BTreeSet::new() }, None)
        } else {
            let mut world = self.world.clone();
            let vars = tmpl.sizes.iter().map(|s| vec![0; *s as usize]).collect();
            world.accounts.insert(target.0, MAccount { template: t, name: name.to_string(), balance: 0, counter: 0, vars });
            let f = tmpl.funcs.iter().find(|f| f.name == func);
            let needed = f.map_or(0, |f| f.price) + 1000 * message.len() as u64;
            let payload = 1000 * message.len() as u64;
            let (exp, new) = model_run(tmpl, &world, target, func, calldata, true);
            let known = f.map_or(false, |f| f.ctor);
            // The order of the checks: template, constructor, gas for the message, gas for the function.
            let oog = gas.unwrap_or(u64::MAX) < needed;
            let broke = gas.unwrap_or(u64::MAX) < payload;
            let absent = f.map_or(false, |f| f.kind == FuncKind::Absent);
            if known && (broke || oog && !absent) {
                (Expected { result: Err(Kind::Oog), logs: vec![], touched: BTreeSet::new() }, None)
            } else {
                (exp, new)
            }
        };
        if exp.result.is_ok() {
            exp.touched.insert(envelope.principal().0);
        }
        self.check_receipt(&what, &target, &tmpl.addr, r.success, &r.error, &r.returndata, &r.logs, &r.touched_accounts, &exp)?;
        if r.success && !self.diverged && r.account_addr != Some(target) {
            self.judge(META, "spawned-address", || format!("{}: the receipt names {:?}", what, r.account_addr))?;
        }
        if !r.success && r.account_addr.is_some() {
            self.judge(META, "spawned-address", || format!("{}: failed, and the receipt names an account", what))?;
        }
        self.after(&what, r.success, new, &r.init_state)?;
        Ok(r)
    }

    pub fn transfer(&mut self, src: usize, dst: usize, amount: u64) -> R {
        let (a, b) = (self.spec.pool[src], self.spec.pool[dst]);
        let ok = match (self.world.accounts.get(&a.0), self.world.accounts.get(&b.0)) {
            (Some(x), Some(y)) => x.balance >= amount && (a == b || y.balance.checked_add(amount).is_some()),
            _ => false,
        };
        let vm = &self.node.vm;
        let r = catch_unwind(AssertUnwindSafe(|| vm.transfer(&a, &b, amount)));
        if r.is_err() {
            crate::runner::take_last_panic();
        }
        self.recs.push(Rec::Transfer(a, b, amount));
        let what = format!("transfer of {} from #{} to #{}", amount, src, dst);
        self.log.push(format!("{} -> {}", what, r.is_ok()));
        if r.is_ok() != ok {
            return self.judge(SUCCESS, "transfer", || format!("{}: possible {}, done {}", what, ok, !ok));
        }
        if ok {
            self.world.accounts.get_mut(&a.0).unwrap().balance -= amount;
            self.world.accounts.get_mut(&b.0).unwrap().balance += amount;
            self.uncommitted = true;
            self.successes += 1;
        } else {
            self.failures += 1;
        }
        Ok(())
    }

    pub fn increase(&mut self, at: usize, amount: u64) -> R {
        let a = self.spec.pool[at];
        let have = self.world.accounts.get(&a.0).map(|x| x.balance);
        let vm = &mut self.node.vm;
        let r = catch_unwind(AssertUnwindSafe(|| vm.increase_balance(&a, amount)));
        if r.is_err() {
            crate::runner::take_last_panic();
        }
        let done = matches!(r, Ok(Ok(())));
        self.log.push(format!("increase of #{} by {} -> {}", at, amount, done));
        match have.and_then(|x| x.checked_add(amount)) {
            Some(sum) => {
                check!(done, "increase", "increasing a balance failed");
                self.recs.push(Rec::Increase(a, amount));
                self.world.accounts.get_mut(&a.0).unwrap().balance = sum;
                self.uncommitted = true;
            }
            // Of an account that doesn't exist, or beyond what a balance can be.
            None if done => return self.judge(BALANCE, "increase-beyond", || format!("the balance {:?} of #{} was increased by {}", have, at, amount)),
            None => self.failures += 1,
        }
        Ok(())
    }

    pub fn commit(&mut self) -> R {
        self.recs.push(Rec::Commit);
        let r = self.node.vm.commit();
        self.log.push(format!("commit -> {}", r.is_ok()));
        if r.is_err() {
            return self.judge(LAYERS, "commit", || "a commit failed".to_string());
        }
        let n = self.layers.len() as u64;
        match self.node.layer() {
            Some((l, s)) if l == n => {
                self.layers.push((self.world.clone(), s));
                self.uncommitted = false;
                Ok(())
            }
            other => self.judge(LAYERS, "layer", || format!("commit: expected layer {}, got {:?}", n, other)),
        }
    }

    pub fn rewind(&mut self, g: &mut Ctx) -> R {
        if self.layers.is_empty() {
            return Ok(());
        }
        if self.uncommitted && g.flip() {
            self.commit()?;
        }
        let n = g.below(self.layers.len());
        self.recs.push(Rec::Rewind(n as u64));
        let r = self.node.vm.rewind(Layer(n as u64));
        self.log.push(format!("rewind to {} -> {}", n, r.is_ok()));
        match r {
            Ok(()) => {
                self.layers.truncate(n + 1);
                self.world = self.layers[n].0.clone();
                self.uncommitted = false;
                Ok(())
            }
            // Refused over changes that are not saved.
            Err(_) if self.uncommitted => Ok(()),
            Err(_) => self.judge(LAYERS, "rewind", || "a rewind failed".to_string()),
        }
    }

    pub fn reopen(&mut self) -> R {
        self.log.push("restart".to_string());
        self.recs.push(Rec::Restart);
        let path = self.node.path.clone();
        self.node = Node::open(&path);
        self.world = self.layers.last().map_or(World::default(), |(w, _)| w.clone());
        self.uncommitted = false;
        Ok(())
    }

    /// Compares all of the node's state with the model.
    pub fn check_state(&mut self, what: &str) -> R {
        if self.diverged {
            return Ok(());
        }
        let spec = self.spec;
        for (i, addr) in spec.pool.iter().enumerate() {
            let got = match self.node.account(spec, &self.world, addr) {
                Ok(got) => got,
                Err(e) => return self.judge(META | VARS | BALANCE, &e.sig, || format!("{}: {}", what, e.msg)),
            };
            let exp = self.world.accounts.get(&addr.0).cloned();
            let (got, exp) = match (got, exp) {
                (None, None) => continue,
                (Some(g), Some(e)) => (g, e),
                (g, e) => {
                    return self.judge(META, "existence", || {
                        format!("{}: account #{} present {}, expected {}", what, i, g.is_some(), e.is_some())
                    })
                }
            };
            if got.balance != exp.balance {
                self.judge(BALANCE, "balance", || format!("{}: account #{} has {} coins instead of {}", what, i, got.balance, exp.balance))?;
            }
            if got.vars != exp.vars && got.template == exp.template {
                self.judge(VARS, "variables", || format!("{}: account #{} has variables {:02x?} instead of {:02x?}", what, i, got.vars, exp.vars))?;
            }
            if got.name != exp.name || got.counter != exp.counter || got.template != exp.template {
                self.judge(META, "account", || format!("{}: account #{} is {:?} instead of {:?}", what, i, got, exp))?;
            }
            let api = self.node.vm.get_account(addr);
            if api != Some((got.balance, got.counter, spec.templates[got.template].addr)) {
                self.judge(META | BALANCE, "get-account", || format!("{}: get_account of #{} gives {:?}, the state has {:?}", what, i, api, got))?;
            }
        }
        for (i, t) in spec.templates.iter().enumerate() {
            let storage = TemplateStorage::load(self.node.gs.clone(), &t.addr);
            let sections = storage.ok().and_then(|s| self.node.rt.block_on(s.sections()).ok());
            let exp = self.world.deployed.contains(&i);
            let ok = match &sections {
                Some(s) => exp && *s == *t.template.sections(),
                None => !exp,
            };
            if !ok {
                self.judge(TEMPLATES, "template", || format!("{}: template {} deployed {}, but reads {:?}", what, i, exp, sections))?;
            }
        }
        let u = self.node.vm.has_uncommitted_changes();
        if !matches!(u, Ok(x) if x == self.uncommitted || self.uncommitted) {
            self.judge(LAYERS, "uncommitted", || format!("{}: has_uncommitted_changes is {:?}", what, u.is_ok()))?;
        }
        Ok(())
    }

    pub fn step(&mut self, g: &mut Ctx, w: &Weights) -> R {
        let spec = self.spec;
        let nt = spec.templates.len();
        match g.weighted(&[w.deploy, w.spawn, w.create, w.call, w.verify, w.transfer, w.increase, w.commit, w.rewind, w.reopen]) {
            0 => {
                let t = g.below(nt);
                self.deploy(g, t, Gas::new()).map(|_| ())
            }
            1 => {
                let t = g.below(nt);
                let tmpl = &spec.templates[t];
                let target = tmpl.spawned_addr();
                // A second account of a template replaces the first (a known finding of R02).
                if self.world.accounts.contains_key(&target.0) {
                    return Ok(());
                }
                let func = tmpl.pick_func(g, true);
                let calldata = self.calldata(g, &target);
                let name = gens::string(g, 12);
                self.spawn(g, t, &func, &calldata, &name, Gas::new()).map(|_| ())
            }
            2 => {
                let at = g.below(spec.pool.len() - nt - 1);
                let t = g.below(nt);
                let balance = match g.draw(4) {
                    0 => 0,
                    1 => u64::MAX - g.int(16),
                    _ => g.int(64),
                };
                self.create(g, at, t, balance)
            }
            op @ 3 | op @ 4 => {
                let present: Vec<[u8; 20]> = self.world.accounts.keys().copied().collect();
                let target = if present.is_empty() || g.one_in(20) { *g.pick(&spec.pool) } else { Address(*g.pick(&present)) };
                let func = match self.world.accounts.get(&target.0) {
                    Some(a) => spec.templates[a.template].pick_func(g, false),
                    _ => (*g.pick(NAMES)).to_string(),
                };
                let calldata = self.calldata(g, &target);
                self.call(g, target, &func, &calldata, op == 4).map(|_| ())
            }
            5 => {
                let (src, dst) = (g.below(spec.pool.len()), g.below(spec.pool.len()));
                let have = self.world.accounts.get(&spec.pool[src].0).map_or(0, |a| a.balance);
                let room = u64::MAX - self.world.accounts.get(&spec.pool[dst].0).map_or(0, |a| a.balance);
                let n = amount(g, have, room);
                self.transfer(src, dst, n)
            }
            6 => {
                let at = g.below(spec.pool.len());
                let have = self.world.accounts.get(&spec.pool[at].0).map_or(0, |a| a.balance);
                let n = if g.flip() { amount(g, have, u64::MAX - have) } else { g.int(62) };
                self.increase(at, n)
            }
            7 => self.commit(),
            8 => self.rewind(g),
            _ => self.reopen(),
        }
    }
}

/// Calls are not limited by gas (a documented gap); half of them have a limit anyway.
fn call_gas(g: &mut Ctx) -> Gas {
    if g.flip() {
        Gas::new()
    } else {
        Gas::with(g.int(64).max(1))
    }
}

pub fn amount(g: &mut Ctx, have: u64, room: u64) -> u64 {
    match g.draw(8) {
        0 => 0,
        1 => 1,
        2 => have,
        3 => have.wrapping_add(1),
        4 => room,
        5 => room.wrapping_add(1),
        6 => {
            let max = have.min(room);
            if max == u64::MAX {
                g.draw(0)
            } else {
                g.draw(max + 1)
            }
        }
        _ => g.int(64),
    }
}

pub fn with_net(net: &mut Net, f: impl FnOnce(&mut Net) -> R) -> R {
    let r = f(net);
    r.map_err(|e| Fail { msg: format!("{}\n  {}", e.msg, net.history()), sig: e.sig })
}

impl<'s> Net<'s> {
    /// A gas limit close to what a spawn costs.
    pub fn spawn_gas(&self, g: &mut Ctx, t: usize, ctor: &str, calldata: &[u8], name: &str, price: u64) -> Gas {
        let tmpl = &self.spec.templates[t];
        let payload = 1000 * SpawnAccount::new(0, &tmpl.addr, name, ctor, calldata.to_vec()).encode_to_vec().len() as u64;
        match g.draw(9) {
            0 => Gas::new(),
            1 => Gas::with(payload + price),
            2 | 3 => Gas::with(payload + price - 1),
            4 => Gas::with(payload),
            5 => Gas::with(payload - 1),
            6 => Gas::with(g.draw(payload + price + 2000)),
            7 => Gas::with(payload + price + g.draw(3)),
            _ => Gas::with(g.int(40)),
        }
    }
}
