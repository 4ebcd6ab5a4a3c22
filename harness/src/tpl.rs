//! Templates written with the SDK: generated specifications, their Rust source, a model that runs
//! them, and their compilation (to Wasm for a node, to shared objects with the SDK's mocks).

use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;

use crate::pbt::Ctx;
use crate::refabi::V;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    Amount,
    Addr,
}

use Ty::*;

const ALL: [Ty; 11] = [Bool, I8, U8, I16, U16, I32, U32, I64, U64, Amount, Addr];
const INTS: [Ty; 8] = [I8, U8, I16, U16, I32, U32, I64, U64];

impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Bool => "bool",
            I8 => "i8",
            U8 => "u8",
            I16 => "i16",
            U16 => "u16",
            I32 => "i32",
            U32 => "u32",
            I64 => "i64",
            U64 => "u64",
            Amount => "Amount",
            Addr => "Address",
        }
    }

    pub fn size(self) -> u32 {
        match self {
            Bool | I8 | U8 => 1,
            I16 | U16 => 2,
            I32 | U32 => 4,
            I64 | U64 | Amount => 8,
            Addr => 20,
        }
    }

    fn wrap(self, x: i128) -> V {
        match self {
            Bool => V::Bool(x != 0),
            I8 => V::I8(x as i8),
            U8 => V::U8(x as u8),
            I16 => V::I16(x as i16),
            U16 => V::U16(x as u16),
            I32 => V::I32(x as i32),
            U32 => V::U32(x as u32),
            I64 => V::I64(x as i64),
            U64 => V::U64(x as u64),
            Amount => V::Amount(x as u64),
            Addr => unreachable!(),
        }
    }

    pub fn zero(self) -> V {
        match self {
            Addr => V::Addr([0; 20]),
            t => t.wrap(0),
        }
    }

    pub fn arbitrary(self, g: &mut Ctx) -> V {
        match self {
            Addr => {
                let mut a = [0; 20];
                a.copy_from_slice(&g.bytes(20));
                V::Addr(a)
            }
            Bool => V::Bool(g.flip()),
            t => {
                let x = g.int(64);
                let neg = g.one_in(4);
                t.wrap(if neg { -(x as i128) } else { x as i128 })
            }
        }
    }
}

fn num(v: &V) -> i128 {
    match v {
        V::Bool(b) => *b as i128,
        V::I8(x) => *x as i128,
        V::U8(x) => *x as i128,
        V::I16(x) => *x as i128,
        V::U16(x) => *x as i128,
        V::I32(x) => *x as i128,
        V::U32(x) => *x as i128,
        V::I64(x) => *x as i128,
        V::U64(x) | V::Amount(x) => *x as i128,
        v => panic!("env: not a number {:?}", v),
    }
}

/// A value as a storage variable of its size holds it.
pub fn raw(v: &V, size: u32) -> Vec<u8> {
    match v {
        V::Addr(a) => a.to_vec(),
        v => (num(v) as i64 as u64).to_le_bytes()[..size as usize].to_vec(),
    }
}

#[derive(Clone, Debug)]
pub struct Var {
    pub ty: Ty,
    pub len: Option<u32>,
    /// The id of its first element.
    pub id: u32,
}

#[derive(Clone, Debug)]
pub enum Ix {
    Const(u32),
    /// An integer argument modulo the length.
    Mod(usize, u32),
    /// An integer argument as it is.
    Raw(usize),
}

#[derive(Clone, Debug)]
pub enum E {
    Const(V),
    Arg(usize),
    ArgAt(usize, u32),
    Local(usize),
    Get(usize),
    GetAt(usize, Ix),
    Bin(u8, Box<E>, Box<E>),
    Cast(Ty, Box<E>),
    /// Of two integers of a type.
    Lt(Box<E>, Box<E>),
    Not(Box<E>),
    AmountOf(Box<E>),
    AmountNum(Box<E>),
    /// "value", "layer_id", "principal", "target".
    Host(&'static str),
}

#[derive(Clone, Debug)]
pub enum S {
    Let(usize, E),
    Set(usize, E),
    SetAt(usize, Ix, E),
    If(E, Vec<S>, Vec<S>),
    Log(String, u8),
}

#[derive(Clone, Debug)]
pub enum Ret {
    None,
    One(Ty, E),
    Arr(Ty, Vec<E>),
    Tup(Vec<(Ty, E)>),
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ctor: bool,
    pub doc: Option<String>,
    pub args: Vec<(Ty, Option<u32>)>,
    pub locals: Vec<Ty>,
    pub body: Vec<S>,
    pub ret: Ret,
    /// The hook to run when coins come along: of the template's default, or a named one.
    pub fundable: Option<Option<usize>>,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub vars: Vec<Var>,
    pub funcs: Vec<Func>,
    /// Hooks have no arguments and return nothing.
    pub hooks: Vec<Func>,
    pub default_hook: Option<usize>,
    pub wasm: bool,
}

// ---------------------------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------------------------

struct Gen<'s> {
    vars: &'s [Var],
    args: Vec<(Ty, Option<u32>)>,
    /// What is in scope.
    locals: Vec<(usize, Ty)>,
    all: Vec<Ty>,
    wasm: bool,
    /// Whether the host can be asked (its name is in scope).
    host: bool,
}

impl<'s> Gen<'s> {
    fn ix(&mut self, g: &mut Ctx, len: u32) -> Ix {
        let ints: Vec<usize> = (0..self.args.len()).filter(|i| self.args[*i].1.is_none() && matches!(self.args[*i].0, U8 | U16 | U32)).collect();
        if ints.is_empty() || g.one_in(3) {
            return Ix::Const(g.draw(len as u64) as u32);
        }
        let a = *g.pick(&ints);
        if self.wasm && g.one_in(3) {
            Ix::Raw(a)
        } else {
            Ix::Mod(a, len)
        }
    }

    fn leaf(&mut self, g: &mut Ctx, ty: Ty) -> E {
        let mut fit: Vec<E> = vec![];
        for (i, (t, len)) in self.args.iter().enumerate() {
            if *t == ty {
                match len {
                    None => {
                        fit.push(E::Arg(i));
                        fit.push(E::Arg(i));
                    }
                    Some(n) => fit.push(E::ArgAt(i, *n)),
                }
            }
        }
        for (i, t) in &self.locals {
            if *t == ty {
                fit.push(E::Local(*i));
                fit.push(E::Local(*i));
            }
        }
        // Reading a `bool` compiles to code that nodes reject.
        if !(self.wasm && ty == Bool) {
            for (i, v) in self.vars.iter().enumerate() {
                if v.ty == ty {
                    fit.push(match v.len {
                        None => E::Get(i),
                        Some(n) => E::GetAt(i, Ix::Const(n)),
                    });
                }
            }
        }
        if self.host && !self.wasm {
            match ty {
                Amount => fit.push(E::Host("value")),
                U64 => fit.push(E::Host("layer_id")),
                Addr => {
                    fit.push(E::Host("principal"));
                    fit.push(E::Host("target"));
                }
                _ => {}
            }
        }
        if fit.is_empty() || ty != Addr && g.one_in(5) {
            if ty == Addr {
                return E::Const(V::Addr([g.draw(256) as u8; 20]));
            }
            return E::Const(ty.arbitrary(g));
        }
        match g.pick(&fit).clone() {
            E::ArgAt(i, n) => E::ArgAt(i, g.draw(n as u64) as u32),
            E::GetAt(v, Ix::Const(n)) => E::GetAt(v, self.ix(g, n)),
            e => e,
        }
    }

    fn expr(&mut self, g: &mut Ctx, ty: Ty, depth: u32) -> E {
        if depth == 0 || g.one_in(3) {
            return self.leaf(g, ty);
        }
        match ty {
            Addr => self.leaf(g, ty),
            Bool => match g.draw(3) {
                0 => E::Not(Box::new(self.expr(g, Bool, depth - 1))),
                1 => self.leaf(g, ty),
                _ => {
                    let t = *g.pick(&INTS);
                    E::Lt(Box::new(self.expr(g, t, depth - 1)), Box::new(self.expr(g, t, depth - 1)))
                }
            },
            Amount => {
                if g.flip() {
                    E::AmountOf(Box::new(self.expr(g, U64, depth - 1)))
                } else {
                    self.leaf(g, ty)
                }
            }
            t => match g.draw(4) {
                0 => {
                    let from = *g.pick(&INTS);
                    E::Cast(t, Box::new(self.expr(g, from, depth - 1)))
                }
                1 if t == U64 => E::AmountNum(Box::new(self.expr(g, Amount, depth - 1))),
                _ => E::Bin(g.draw(4) as u8, Box::new(self.expr(g, t, depth - 1)), Box::new(self.expr(g, t, depth - 1))),
            },
        }
    }

    fn stmts(&mut self, g: &mut Ctx, max: usize, depth: u32) -> Vec<S> {
        let n = g.size(max);
        let scope = self.locals.len();
        let mut out = vec![];
        for _ in 0..n {
            let choice = g.weighted(&[3, 6, if depth > 0 { 2 } else { 0 }, if self.host && !self.wasm { 1 } else { 0 }]);
            out.push(match choice {
                0 => {
                    let ty = if g.one_in(3) || self.vars.is_empty() { *g.pick(&ALL) } else { g.pick(self.vars).ty };
                    let e = self.expr(g, ty, 2);
                    let i = self.all.len();
                    self.all.push(ty);
                    self.locals.push((i, ty));
                    S::Let(i, e)
                }
                1 if !self.vars.is_empty() => {
                    let i = g.below(self.vars.len());
                    let (ty, len) = (self.vars[i].ty, self.vars[i].len);
                    match len {
                        None => S::Set(i, self.expr(g, ty, 3)),
                        Some(n) => {
                            let ix = self.ix(g, n);
                            S::SetAt(i, ix, self.expr(g, ty, 3))
                        }
                    }
                }
                2 => {
                    let c = self.expr(g, Bool, 3);
                    S::If(c, self.stmts(g, 3, depth - 1), self.stmts(g, 3, depth - 1))
                }
                3 => S::Log(format!("m{}", g.draw(100)), g.draw(256) as u8),
                _ => continue,
            });
        }
        if depth < 2 {
            self.locals.truncate(scope);
        }
        out
    }
}

fn func(g: &mut Ctx, vars: &[Var], name: String, ctor: bool, hook: bool, wasm: bool) -> Func {
    let n = if hook { 0 } else { g.size(5) };
    let mut args = vec![];
    for _ in 0..n {
        let ty = if !vars.is_empty() && g.flip() { g.pick(vars).ty } else { *g.pick(&ALL) };
        // Decoding an array compiles to loops, which nodes reject.
        args.push((ty, if !wasm && g.one_in(4) { Some(1 + g.draw(4) as u32) } else { None }));
    }
    let host = hook || n > 0;
    let mut gen = Gen { vars, args: args.clone(), locals: vec![], all: vec![], wasm, host };
    let body = gen.stmts(g, 6, 2);
    let ty = |g: &mut Ctx| loop {
        let t = *g.pick(&ALL);
        // Encoding a 64-bit integer compiles to code that nodes reject.
        if !(wasm && matches!(t, I64 | U64)) {
            break t;
        }
    };
    let ret = if hook {
        Ret::None
    } else {
        match g.weighted(&[2, 4, 2, 3]) {
            0 => Ret::None,
            1 => {
                let t = ty(g);
                Ret::One(t, gen.expr(g, t, 2))
            }
            2 => {
                let t = ty(g);
                let n = 1 + g.draw(4);
                Ret::Arr(t, (0..n).map(|_| gen.expr(g, t, 1)).collect())
            }
            _ => {
                let n = 2 + g.draw(3);
                Ret::Tup(
                    (0..n)
                        .map(|_| {
                            let t = ty(g);
                            (t, gen.expr(g, t, 1))
                        })
                        .collect(),
                )
            }
        }
    };
    let doc = if !wasm && !hook && g.one_in(4) { Some(format!("does {}", g.draw(1000))) } else { None };
    Func { name, ctor, doc, args, locals: gen.all, body, ret, fundable: None }
}

impl Spec {
    pub fn generate(g: &mut Ctx, wasm: bool) -> Spec {
        let n = 1 + g.size(7);
        let mut id = 0;
        let mut vars = vec![];
        for _ in 0..n {
            let ty = *g.pick(&ALL);
            let len = if g.one_in(3) { Some(1 + if g.one_in(4) { g.draw(40) } else { g.draw(5) } as u32) } else { None };
            vars.push(Var { ty, len, id });
            id += len.unwrap_or(1);
        }
        if wasm && !vars.iter().any(|v: &Var| v.ty == Addr) {
            // Something to take addresses from: constant ones compile to code that nodes reject.
            vars.push(Var { ty: Addr, len: None, id });
        }
        let hooks: Vec<Func> = if wasm { vec![] } else { (0..g.draw(3)).map(|i| func(g, &vars, format!("hook{}", i), false, true, wasm)).collect() };
        let default_hook = if hooks.is_empty() || g.one_in(3) { None } else { Some(g.below(hooks.len())) };
        let mut funcs = vec![];
        for i in 0..1 + g.draw(2) {
            funcs.push(func(g, &vars, format!("ctor{}", i), true, false, wasm));
        }
        for i in 0..1 + g.draw(4) {
            funcs.push(func(g, &vars, format!("endpoint{}", i), false, false, wasm));
        }
        if !wasm {
            for f in &mut funcs {
                if g.flip() {
                    f.fundable = Some(if hooks.is_empty() || g.flip() { None } else { Some(g.below(hooks.len())) });
                }
            }
        }
        Spec { vars, funcs, hooks, default_hook, wasm }
    }

    pub fn numbered(seed: u64, k: u64, wasm: bool) -> Spec {
        let mut g = Ctx::generate(crate::pbt::fnv(format!("template {} {} {}", seed, k, wasm).as_bytes()), k, None, Path::new("/nonexistent"));
        Spec::generate(&mut g, wasm)
    }

    // -----------------------------------------------------------------------------------------
    // Source
    // -----------------------------------------------------------------------------------------

    fn src_ix(&self, ix: &Ix) -> String {
        match ix {
            Ix::Const(c) => format!("{}", c),
            Ix::Mod(a, n) => format!("(a{} as usize) % {}", a, n),
            Ix::Raw(a) => format!("a{} as usize", a),
        }
    }

    fn src(&self, e: &E) -> String {
        match e {
            E::Const(V::Bool(b)) => format!("{}", b),
            E::Const(V::Addr(a)) => format!("Address::repeat({})", a[0]),
            E::Const(V::Amount(x)) => format!("Amount({})", x),
            E::Const(v) => {
                let ty = match v {
                    V::I8(_) => "i8",
                    V::U8(_) => "u8",
                    V::I16(_) => "i16",
                    V::U16(_) => "u16",
                    V::I32(_) => "i32",
                    V::U32(_) => "u32",
                    V::I64(_) => "i64",
                    _ => "u64",
                };
                format!("({}{})", num(v), ty)
            }
            E::Arg(i) => format!("a{}", i),
            E::ArgAt(i, k) => format!("a{}[{}]", i, k),
            E::Local(i) => format!("l{}", i),
            E::Get(v) => format!("Storage::get_v{}()", v),
            E::GetAt(v, ix) => format!("Storage::get_v{}({})", v, self.src_ix(ix)),
            E::Bin(op, a, b) => {
                let op = ["wrapping_add", "wrapping_sub", "wrapping_mul", ""][*op as usize % 4];
                if op.is_empty() {
                    format!("({} ^ {})", self.src(a), self.src(b))
                } else {
                    format!("({}).{}({})", self.src(a), op, self.src(b))
                }
            }
            E::Cast(t, a) => format!("(({}) as {})", self.src(a), t.name()),
            E::Lt(a, b) => format!("(({}) < ({}))", self.src(a), self.src(b)),
            E::Not(a) => format!("!({})", self.src(a)),
            E::AmountOf(a) => format!("Amount({})", self.src(a)),
            E::AmountNum(a) => format!("({}).0", self.src(a)),
            E::Host("value") => "Node::value()".to_string(),
            E::Host("layer_id") => "Node.layer_id().0".to_string(),
            E::Host(h) => format!("Node.{}()", h),
        }
    }

    fn src_stmts(&self, f: &Func, body: &[S], indent: usize, out: &mut String) {
        let pad = " ".repeat(indent);
        for s in body {
            let _ = match s {
                S::Let(i, e) => writeln!(out, "{}let l{}: {} = {};", pad, i, f.locals[*i].name(), self.src(e)),
                S::Set(v, e) => writeln!(out, "{}Storage::set_v{}({}{});", pad, v, if self.vars[*v].ty == Addr { "&" } else { "" }, self.src(e)),
                S::SetAt(v, ix, e) => {
                    writeln!(out, "{}Storage::set_v{}({}, {}{});", pad, v, self.src_ix(ix), if self.vars[*v].ty == Addr { "&" } else { "" }, self.src(e))
                }
                S::Log(m, c) => writeln!(out, "{}Node.log(\"{}\", {});", pad, m, c),
                S::If(c, a, b) => {
                    let _ = writeln!(out, "{}if {} {{", pad, self.src(c));
                    self.src_stmts(f, a, indent + 4, out);
                    let _ = writeln!(out, "{}}} else {{", pad);
                    self.src_stmts(f, b, indent + 4, out);
                    writeln!(out, "{}}}", pad)
                }
            };
        }
    }

    fn src_func(&self, f: &Func, out: &mut String) {
        let args: Vec<String> = f
            .args
            .iter()
            .enumerate()
            .map(|(i, (t, len))| match len {
                None => format!("a{}: {}", i, t.name()),
                Some(n) => format!("a{}: [{}; {}]", i, t.name(), n),
            })
            .collect();
        let (ty, ret) = match &f.ret {
            Ret::None => (String::new(), String::new()),
            Ret::One(t, e) => (format!(" -> {}", t.name()), self.src(e)),
            Ret::Arr(t, es) => (format!(" -> [{}; {}]", t.name(), es.len()), format!("[{}]", es.iter().map(|e| self.src(e)).collect::<Vec<_>>().join(", "))),
            Ret::Tup(es) => (
                format!(" -> ({})", es.iter().map(|(t, _)| t.name()).collect::<Vec<_>>().join(", ")),
                format!("({})", es.iter().map(|(_, e)| self.src(e)).collect::<Vec<_>>().join(", ")),
            ),
        };
        let _ = writeln!(out, "    fn {}({}){} {{", f.name, args.join(", "), ty);
        self.src_stmts(f, &f.body, 8, out);
        if !ret.is_empty() {
            let _ = writeln!(out, "        {}", ret);
        }
        let _ = writeln!(out, "    }}\n");
    }

    /// The template's module.
    pub fn module(&self) -> String {
        let mut out = String::from("#[template]\nmod Generated {\n    #[storage]\n    struct Storage {\n");
        for (i, v) in self.vars.iter().enumerate() {
            let _ = match v.len {
                None => writeln!(out, "        v{}: {},", i, v.ty.name()),
                Some(n) => writeln!(out, "        v{}: [{}; {}],", i, v.ty.name(), n),
            };
        }
        out.push_str("    }\n\n");
        for (i, h) in self.hooks.iter().enumerate() {
            let _ = writeln!(out, "    #[fundable_hook{}]", if self.default_hook == Some(i) { "(default)" } else { "" });
            self.src_func(h, &mut out);
        }
        for f in &self.funcs {
            match f.fundable {
                None => {}
                Some(None) => out.push_str("    #[fundable]\n"),
                Some(Some(h)) => {
                    let _ = writeln!(out, "    #[fundable(hook{})]", h);
                }
            }
            let doc = f.doc.as_ref().map_or(String::new(), |d| format!("(doc = \"{}\")", d));
            let _ = writeln!(out, "    #[{}{}]", if f.ctor { "ctor" } else { "endpoint" }, doc);
            self.src_func(f, &mut out);
        }
        out.push_str("}\n");
        out
    }

    /// A crate of the template.
    pub fn source(&self) -> String {
        let mut out = String::from("#![allow(warnings)]\n");
        let sdk = if self.wasm { "svm_sdk" } else { "svm_sdk_mock" };
        let _ = writeln!(out, "use {}::{{template, Address, Amount}};\n\n{}", sdk, self.module());
        if !self.wasm {
            out.push_str("type Sink = extern \"C\" fn(u32, *const u8, usize);\n\n");
            out.push_str("#[no_mangle]\npub extern \"C\" fn h_reset() {\n    svm_sdk::host::MockHost::reset();\n    svm_sdk::storage::MockStorage::clear();\n}\n\n");
            out.push_str("fn h_addr(a: *const u8) -> Address {\n    let v = unsafe { core::slice::from_raw_parts(a, 20) }.to_vec();\n    Address::from(&*Box::leak(v.into_boxed_slice()))\n}\n\n");
            out.push_str("#[no_mangle]\npub extern \"C\" fn h_begin(data: *const u8, len: usize, value: u64, layer: u64, principal: *const u8, target: *const u8) {\n    use svm_sdk::host::MockHost;\n    MockHost::reset();\n    let data = unsafe { core::slice::from_raw_parts(data, len) };\n    MockHost::set_raw_calldata(data);\n    MockHost::set_value(Amount(value));\n    MockHost::set_layer_id(svm_sdk::LayerId(layer));\n    MockHost::set_principal(h_addr(principal));\n    MockHost::set_target(h_addr(target));\n}\n\n");
            out.push_str("#[no_mangle]\npub extern \"C\" fn h_end(sink: Sink) {\n    use svm_sdk::host::MockHost;\n    if let Some(r) = MockHost::returndata() { sink(0, r.as_ptr(), r.len()); }\n    for (m, c) in MockHost::logs() { sink(1 + c as u32, m.as_ptr(), m.len()); }\n}\n\n");
            out.push_str("#[no_mangle]\npub extern \"C\" fn h_meta(sink: Sink) { let m = raw_meta(); sink(0, m.as_ptr(), m.len()); }\n\n");
            out.push_str("#[no_mangle]\npub extern \"C\" fn h_dump(sink: Sink) {\n");
            for (i, v) in self.vars.iter().enumerate() {
                for k in 0..v.len.unwrap_or(1) {
                    let get = if v.len.is_some() { format!("Storage::get_v{}({})", i, k) } else { format!("Storage::get_v{}()", i) };
                    let bytes = match v.ty {
                        Bool => format!("[{} as u8]", get),
                        Amount => format!("({}).0.to_le_bytes()", get),
                        Addr => format!("{{ let a = {}; let mut b = [0u8; 20]; b.copy_from_slice(a.as_slice()); b }}", get),
                        _ => format!("({}).to_le_bytes()", get),
                    };
                    let _ = writeln!(out, "    let b = {}; sink({}, b.as_ptr(), b.len());", bytes, v.id + k);
                }
            }
            out.push_str("}\n");
        }
        out
    }

    // -----------------------------------------------------------------------------------------
    // The model
    // -----------------------------------------------------------------------------------------

    pub fn fresh(&self) -> Vec<Vec<V>> {
        self.vars.iter().map(|v| vec![v.ty.zero(); v.len.unwrap_or(1) as usize]).collect()
    }

    /// The byte sizes of the storage's variables, by id.
    pub fn sizes(&self) -> Vec<u32> {
        self.vars.iter().flat_map(|v| vec![v.ty.size(); v.len.unwrap_or(1) as usize]).collect()
    }

    pub fn raw(&self, vars: &[Vec<V>]) -> Vec<Vec<u8>> {
        vars.iter().zip(&self.vars).flat_map(|(vs, d)| vs.iter().map(move |v| raw(v, d.ty.size()))).collect()
    }

    pub fn arguments(&self, g: &mut Ctx, f: &Func) -> Vec<V> {
        f.args
            .iter()
            .map(|(t, len)| match len {
                None => {
                    let v = t.arbitrary(g);
                    // Small numbers serve as indices.
                    if matches!(t, U8 | U16 | U32) && g.flip() {
                        t.wrap(g.draw(7) as i128)
                    } else {
                        v
                    }
                }
                Some(n) => V::Arr((0..*n).map(|_| t.arbitrary(g)).collect()),
            })
            .collect()
    }

    pub fn env(&self) -> Env {
        Env { value: 0, layer: 0, principal: [0; 20], target: [0; 20] }
    }

    /// Runs a function on storage. `None`: it panics.
    pub fn run(&self, f: &Func, vars: &[Vec<V>], args: &[V], env: &Env) -> Option<Run> {
        let mut m = Model { spec: self, vars: vars.to_vec(), args, locals: vec![], env, logs: vec![], hook: false };
        let mut hook_ran = false;
        if let (Some(which), true) = (&f.fundable, env.value > 0) {
            if let Some(h) = which.or(self.default_hook) {
                let hook = &self.hooks[h];
                m.locals = vec![V::None; hook.locals.len()];
                m.stmts(&hook.body)?;
                hook_ran = true;
            }
        }
        m.locals = vec![V::None; f.locals.len()];
        m.stmts(&f.body)?;
        let mut ret = vec![];
        match &f.ret {
            Ret::None => {}
            Ret::One(_, e) => m.eval(e)?.encode(&mut ret),
            Ret::Arr(_, es) => {
                let vs: Option<Vec<V>> = es.iter().map(|e| m.eval(e)).collect();
                V::Arr(vs?).encode(&mut ret)
            }
            Ret::Tup(es) => {
                for (_, e) in es {
                    m.eval(e)?.encode(&mut ret)
                }
            }
        }
        Some(Run { vars: m.vars, ret, logs: m.logs, hook: hook_ran })
    }
}

#[derive(Clone, Debug)]
pub struct Env {
    pub value: u64,
    pub layer: u64,
    pub principal: [u8; 20],
    pub target: [u8; 20],
}

#[derive(Clone, Debug)]
pub struct Run {
    pub vars: Vec<Vec<V>>,
    pub ret: Vec<u8>,
    pub logs: Vec<(String, u8)>,
    pub hook: bool,
}

struct Model<'a> {
    spec: &'a Spec,
    vars: Vec<Vec<V>>,
    args: &'a [V],
    locals: Vec<V>,
    env: &'a Env,
    logs: Vec<(String, u8)>,
    #[allow(dead_code)]
    hook: bool,
}

impl<'a> Model<'a> {
    fn ix(&self, ix: &Ix, var: usize) -> Option<usize> {
        let n = self.vars[var].len();
        let i = match ix {
            Ix::Const(c) => *c as usize,
            Ix::Mod(a, m) => (num(&self.args[*a]) as usize) % *m as usize,
            Ix::Raw(a) => num(&self.args[*a]) as usize,
        };
        if i < n {
            Some(i)
        } else {
            None
        }
    }

    fn eval(&self, e: &E) -> Option<V> {
        Some(match e {
            E::Const(v) => v.clone(),
            E::Arg(i) => self.args[*i].clone(),
            E::ArgAt(i, k) => match &self.args[*i] {
                V::Arr(vs) => vs[*k as usize].clone(),
                v => panic!("env: not an array {:?}", v),
            },
            E::Local(i) => self.locals[*i].clone(),
            E::Get(v) => self.vars[*v][0].clone(),
            E::GetAt(v, ix) => self.vars[*v][self.ix(ix, *v)?].clone(),
            E::Bin(op, a, b) => {
                let (a, b) = (self.eval(a)?, self.eval(b)?);
                let (x, y) = (num(&a), num(&b));
                let r = match op % 4 {
                    0 => x + y,
                    1 => x - y,
                    2 => x.wrapping_mul(y),
                    _ => x ^ y,
                };
                same(&a).wrap(r)
            }
            E::Cast(t, a) => t.wrap(num(&self.eval(a)?)),
            E::Lt(a, b) => V::Bool(num(&self.eval(a)?) < num(&self.eval(b)?)),
            E::Not(a) => V::Bool(num(&self.eval(a)?) == 0),
            E::AmountOf(a) => V::Amount(num(&self.eval(a)?) as u64),
            E::AmountNum(a) => V::U64(num(&self.eval(a)?) as u64),
            E::Host("value") => V::Amount(self.env.value),
            E::Host("layer_id") => V::U64(self.env.layer),
            E::Host("principal") => V::Addr(self.env.principal),
            E::Host(_) => V::Addr(self.env.target),
        })
    }

    fn stmts(&mut self, body: &[S]) -> Option<()> {
        for s in body {
            match s {
                S::Let(i, e) => self.locals[*i] = self.eval(e)?,
                S::Set(v, e) => self.vars[*v][0] = self.eval(e)?,
                S::SetAt(v, ix, e) => {
                    let x = self.eval(e)?;
                    let i = self.ix(ix, *v)?;
                    self.vars[*v][i] = x
                }
                S::If(c, a, b) => {
                    let c = num(&self.eval(c)?) != 0;
                    self.stmts(if c { a } else { b })?
                }
                S::Log(m, c) => self.logs.push((m.clone(), *c)),
            }
        }
        let _ = self.spec;
        Some(())
    }
}

fn same(v: &V) -> Ty {
    match v {
        V::I8(_) => I8,
        V::U8(_) => U8,
        V::I16(_) => I16,
        V::U16(_) => U16,
        V::I32(_) => I32,
        V::U32(_) => U32,
        V::I64(_) => I64,
        V::U64(_) => U64,
        v => panic!("env: not an integer {:?}", v),
    }
}

// ---------------------------------------------------------------------------------------------
// Compilation
// ---------------------------------------------------------------------------------------------

fn write_if_changed(path: &Path, text: &str) {
    if std::fs::read_to_string(path).ok().as_deref() != Some(text) {
        std::fs::create_dir_all(path.parent().unwrap()).expect("env: directory");
        std::fs::write(path, text).expect("env: write");
    }
}

/// Where the artifact of template `k` lies once built.
pub fn artifact(dir: &Path, k: u64, wasm: bool) -> PathBuf {
    if wasm {
        dir.join("target/wasm32-unknown-unknown/release").join(format!("t{}.wasm", k))
    } else {
        dir.join("target/debug").join(format!("libt{}.so", k))
    }
}

/// Compiles templates `0..n` of a seed under `dir`. One that does not compile has no artifact.
pub fn build(dir: &Path, seed: u64, n: u64, wasm: bool) {
    let ws = dir.join("ws");
    let repo = repo_dir();
    let members: Vec<String> = (0..n).map(|k| format!("\"t{}\"", k)).collect();
    let profile = if wasm {
        "[profile.release]\nopt-level = 'z'\npanic = 'abort'\nlto = true\ndebug = false\noverflow-checks = false\ndebug-assertions = false\nincremental = false\nrpath = false\n"
    } else {
        "[profile.dev]\ndebug = 0\nincremental = false\n"
    };
    write_if_changed(&ws.join("Cargo.toml"), &format!("[workspace]\nmembers = [{}]\n\n{}", members.join(", "), profile));
    let lock = repo.join("Cargo.lock");
    if !ws.join("Cargo.lock").exists() && lock.exists() {
        std::fs::copy(&lock, ws.join("Cargo.lock")).expect("env: lock file");
    }
    let dep = if wasm {
        format!("svm-sdk = {{ path = \"{}/crates/wasm/sdk\", features = [\"static-alloc\"] }}", repo.display())
    } else {
        format!("svm-sdk-mock = {{ path = \"{}/crates/wasm/sdk-mock\", features = [\"dynamic-alloc\"], default-features = false }}", repo.display())
    };
    for k in 0..n {
        let at = ws.join(format!("t{}", k));
        write_if_changed(&at.join("Cargo.toml"), &format!("[package]\nname = \"t{}\"\nversion = \"0.0.0\"\nedition = \"2021\"\npublish = false\n\n[lib]\ncrate-type = ['cdylib']\n\n[dependencies]\n{}\n", k, dep));
        write_if_changed(&at.join("src/lib.rs"), &Spec::numbered(seed, k, wasm).source());
        let _ = std::fs::remove_file(artifact(dir, k, wasm));
    }
    let cargo = |what: &[String]| {
        let mut c = Command::new("cargo");
        c.arg("build").args(&["--offline", "-q"]).args(what).current_dir(&ws).env("CARGO_TARGET_DIR", dir.join("target"));
        if wasm {
            c.args(&["--release", "--target", "wasm32-unknown-unknown"]);
        }
        let out = c.output().expect("env: cargo");
        std::fs::write(dir.join("build.log"), &out.stderr).expect("env: log");
        out.status.success()
    };
    if !cargo(&[]) {
        eprintln!("some templates do not build");
        for k in 0..n {
            if !cargo(&["-p".to_string(), format!("t{}", k)]) {
                let text = std::fs::read(dir.join("build.log")).unwrap_or_default();
                std::fs::write(dir.join(format!("t{}.log", k)), text).expect("env: log");
            }
        }
    }
}

pub fn repo_dir() -> PathBuf {
    PathBuf::from("/repo")
}
