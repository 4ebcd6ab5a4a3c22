//! The documented binary formats, written a second time and independently of the code under test.

use svm_layout::Layout;
use svm_types::*;

pub struct W(pub Vec<u8>);

impl W {
    fn raw(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend_from_slice(b);
        self
    }
    fn be(&mut self, v: u128, bytes: usize) -> &mut Self {
        self.0.extend_from_slice(&v.to_be_bytes()[16 - bytes..]);
        self
    }
    fn short(&mut self, b: &[u8]) -> &mut Self {
        assert!(b.len() <= 255);
        self.be(b.len() as u128, 1).raw(b)
    }
}

pub fn envelope(e: &Envelope) -> Vec<u8> {
    let mut w = W(vec![]);
    w.raw(&e.principal().0)
        .be(e.amount().into(), 8)
        .be(e.nonce(), 16)
        .be(e.gas_limit().unwrap_or(0).into(), 8)
        .be(e.gas_fee().into(), 8);
    w.0
}

pub fn context(c: &Context) -> Vec<u8> {
    let mut w = W(vec![]);
    w.raw(&c.tx_id().0).be(c.layer().0.into(), 8).raw(&c.state().0);
    w.0
}

pub fn transaction(t: &Transaction) -> Vec<u8> {
    let mut w = W(vec![]);
    w.be(t.version.into(), 2)
        .raw(&t.target.0)
        .short(t.func_name.as_bytes())
        .short(&t.verifydata)
        .short(&t.calldata);
    w.0
}

pub fn spawn(s: &SpawnAccount) -> Vec<u8> {
    let mut w = W(vec![]);
    w.be(s.version.into(), 2)
        .raw(&s.account.template_addr.0)
        .short(s.account.name.as_bytes())
        .short(s.ctor_name.as_bytes())
        .short(&s.calldata);
    w.0
}

pub fn section(s: &Section) -> (u16, Vec<u8>) {
    let mut w = W(vec![]);
    let kind = match s {
        Section::Code(c) => {
            w.be(1, 2)
                .be(c.flags().into(), 8)
                .be(1, 8)
                .be(c.svm_version().into(), 4)
                .be(c.code().len() as u128, 4)
                .raw(c.code());
            1
        }
        Section::Data(d) => {
            w.be(d.layouts().len() as u128, 2);
            for l in d.layouts() {
                let Layout::Fixed(f) = l;
                w.be(1, 2).be(f.len() as u128, 2);
                for (i, v) in f.iter().enumerate() {
                    if i == 0 {
                        w.be(v.id.into(), 4);
                    }
                    w.be(v.byte_size.into(), 2);
                }
            }
            2
        }
        Section::Ctors(c) => {
            w.be(c.ctors().len() as u128, 1);
            for c in c.ctors() {
                w.short(c.as_bytes());
            }
            3
        }
        Section::Schema(_) => 4,
        Section::Api(_) => 5,
        Section::Header(h) => {
            w.be(h.code_version().into(), 4)
                .short(h.name().as_bytes())
                .short(h.desc().as_bytes());
            6
        }
        Section::Deploy(d) => {
            w.raw(&d.tx_id().0)
                .be(d.layer().0.into(), 8)
                .raw(&d.deployer().0)
                .raw(&d.template().0);
            7
        }
    };
    (kind, w.0)
}

pub fn sections(s: &Sections) -> Vec<u8> {
    let mut w = W(vec![]);
    w.be(s.len() as u128, 2);
    for s in s.iter() {
        let (kind, bytes) = section(s);
        w.be(kind.into(), 2).be(bytes.len() as u128, 4).raw(&bytes);
    }
    w.0
}

fn logs(w: &mut W, logs: &[ReceiptLog]) {
    w.be(logs.len() as u128, 1);
    for l in logs {
        w.be(l.as_bytes().len() as u128, 2).raw(l.as_bytes());
    }
}

/// The longest prefix of whole characters that fits the encoding.
pub fn truncated(msg: &str) -> &str {
    let mut n = msg.len().min(255);
    while !msg.is_char_boundary(n) {
        n -= 1;
    }
    &msg[..n]
}

fn failure(w: &mut W, err: &RuntimeError, l: &[ReceiptLog]) {
    use RuntimeError::*;
    let code = match err {
        OOG => 0,
        TemplateNotFound(..) => 1,
        AccountNotFound(..) => 2,
        CompilationFailed { .. } => 3,
        InstantiationFailed { .. } => 4,
        FuncNotFound { .. } => 5,
        FuncFailed { .. } => 6,
        FuncNotCtor { .. } => 7,
        FuncNotAllowed { .. } => 8,
        FuncInvalidSignature { .. } => 9,
    };
    w.be(code, 1);
    logs(w, l);
    match err {
        OOG => {}
        TemplateNotFound(t) => {
            w.raw(&t.0);
        }
        AccountNotFound(a) => {
            w.raw(&a.0);
        }
        CompilationFailed { target, template, msg } | InstantiationFailed { target, template, msg } => {
            w.raw(&template.0).raw(&target.0).short(truncated(msg).as_bytes());
        }
        FuncNotFound { target, template, func } | FuncInvalidSignature { target, template, func } => {
            w.raw(&template.0).raw(&target.0).short(func.as_bytes());
        }
        FuncFailed { target, template, func, msg } | FuncNotAllowed { target, template, func, msg } => {
            w.raw(&template.0)
                .raw(&target.0)
                .short(func.as_bytes())
                .short(truncated(msg).as_bytes());
        }
        FuncNotCtor { template, func } => {
            w.raw(&template.0).short(func.as_bytes());
        }
    }
}

/// The encoding, and where the touched accounts lie in it (their order is not documented).
pub fn receipt(r: &Receipt) -> (Vec<u8>, std::ops::Range<usize>) {
    let mut w = W(vec![]);
    let mut range = 0..0;
    let mut touched = |w: &mut W, t: &std::collections::HashSet<Address>| {
        w.be(t.len() as u128, 2);
        let start = w.0.len();
        let mut t: Vec<[u8; 20]> = t.iter().map(|a| a.0).collect();
        t.sort();
        for a in &t {
            w.raw(a);
        }
        range = start..w.0.len();
    };
    match r {
        Receipt::Deploy(r) => {
            w.be(0, 1).be(r.version.into(), 2).be(r.success as u128, 1);
            if r.success {
                w.raw(&r.addr.as_ref().unwrap().0).be(r.gas_used.unwrap_or(0).into(), 8);
                logs(&mut w, &r.logs);
            } else {
                failure(&mut w, r.error.as_ref().unwrap(), &r.logs);
            }
        }
        Receipt::Spawn(r) => {
            w.be(1, 1).be(r.version.into(), 2).be(r.success as u128, 1);
            if r.success {
                let data = r.returndata.as_ref().unwrap();
                w.raw(&r.account_addr.as_ref().unwrap().0)
                    .raw(&r.init_state.as_ref().unwrap().0)
                    .be(data.len() as u128, 2)
                    .raw(data)
                    .be(r.gas_used.unwrap_or(0).into(), 8);
                touched(&mut w, &r.touched_accounts);
                logs(&mut w, &r.logs);
            } else {
                failure(&mut w, r.error.as_ref().unwrap(), &r.logs);
            }
        }
        Receipt::Call(r) => {
            w.be(2, 1).be(r.version.into(), 2).be(r.success as u128, 1);
            if r.success {
                let data = r.returndata.as_ref().unwrap();
                w.raw(&r.new_state.as_ref().unwrap().0)
                    .be(data.len() as u128, 2)
                    .raw(data)
                    .be(r.gas_used.unwrap_or(0).into(), 8);
                touched(&mut w, &r.touched_accounts);
                logs(&mut w, &r.logs);
            } else {
                failure(&mut w, r.error.as_ref().unwrap(), &r.logs);
            }
        }
    }
    (w.0, range)
}

/// `bytes` with the touched accounts sorted.
pub fn sort_touched(bytes: &[u8], range: std::ops::Range<usize>) -> Vec<u8> {
    let mut out = bytes.to_vec();
    if range.end <= out.len() {
        let mut t: Vec<Vec<u8>> = out[range.clone()].chunks(20).map(|c| c.to_vec()).collect();
        t.sort();
        out[range].copy_from_slice(&t.concat());
    }
    out
}
