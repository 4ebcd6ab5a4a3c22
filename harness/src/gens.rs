//! Generators of the values the code base exchanges.

use std::collections::HashSet;

use svm_layout::{FixedLayout, Layout};
use svm_types::*;

use crate::pbt::Ctx;

pub fn array<const N: usize>(g: &mut Ctx) -> [u8; N] {
    let mut a = [0; N];
    if g.draw(4) == 0 {
        a = [g.draw(256) as u8; N];
    } else {
        a.copy_from_slice(&g.bytes(N));
    }
    a
}

pub fn addr(g: &mut Ctx) -> Address {
    Address(array(g))
}

pub fn template_addr(g: &mut Ctx) -> TemplateAddr {
    TemplateAddr(array(g))
}

pub fn state(g: &mut Ctx) -> State {
    State(array(g))
}

pub fn tx_id(g: &mut Ctx) -> TransactionId {
    TransactionId(array(g))
}

/// UTF-8 of at most `max` bytes.
pub fn string(g: &mut Ctx, max: usize) -> String {
    let len = g.size(max);
    let mut s = String::with_capacity(len);
    let style = g.draw(4);
    while s.len() < len {
        let c = match style {
            0 | 1 => (b'a' + g.draw(26) as u8) as char,
            2 => *g.pick(&['a', '\u{0}', '"', '\\', '\n', 'é', 'ß', '中', '\u{10FFFF}', '🦀']),
            _ => char::from_u32(g.draw(0x11_0000) as u32).unwrap_or('x'),
        };
        if s.len() + c.len_utf8() > len {
            while s.len() < len {
                s.push('z');
            }
            break;
        }
        s.push(c);
    }
    s
}

pub fn blob(g: &mut Ctx, max: usize) -> Vec<u8> {
    let len = g.size(max);
    g.bytes(len)
}

/// Gas amounts that have an encoding of their own (zero is encoded as "none").
pub fn gas(g: &mut Ctx) -> Gas {
    match g.int(64) {
        0 => Gas::new(),
        x => Gas::with(x),
    }
}

pub fn u128(g: &mut Ctx) -> u128 {
    match g.draw(4) {
        0 => u128::from(g.int(64)),
        1 => u128::MAX - u128::from(g.int(64)),
        _ => u128::from(g.int(64)) << 64 | u128::from(g.int(64)),
    }
}

pub fn envelope(g: &mut Ctx) -> Envelope {
    let principal = addr(g);
    let amount = g.int(64);
    let nonce = u128(g);
    let gas_limit = gas(g);
    let gas_fee = g.int(64);
    Envelope::new(principal, amount, nonce, gas_limit, gas_fee)
}

pub fn context(g: &mut Ctx) -> Context {
    let id = tx_id(g);
    let layer = Layer(g.int(64));
    let state = state(g);
    Context::new(id, layer, state)
}

pub fn transaction(g: &mut Ctx) -> Transaction {
    Transaction {
        version: g.int(16) as u16,
        target: addr(g),
        func_name: string(g, 255),
        verifydata: blob(g, 255),
        calldata: blob(g, 255),
    }
}

pub fn spawn(g: &mut Ctx) -> SpawnAccount {
    SpawnAccount {
        version: g.int(16) as u16,
        account: Account {
            name: string(g, 255),
            template_addr: template_addr(g),
        },
        ctor_name: string(g, 255),
        calldata: blob(g, 255),
    }
}

pub fn log(g: &mut Ctx) -> ReceiptLog {
    let max = match g.draw(16) {
        15 => 65535,
        14 => 300,
        _ => 20,
    };
    ReceiptLog::new(blob(g, max))
}

/// Bounded so that a case stays small most of the time, with the limit (255 logs) reached.
pub fn logs(g: &mut Ctx) -> Vec<ReceiptLog> {
    if g.one_in(24) {
        let n = 255 - g.below(3);
        (0..n).map(|i| ReceiptLog::new(vec![i as u8; i % 5])).collect()
    } else {
        let n = g.size(5);
        (0..n).map(|_| log(g)).collect()
    }
}

pub fn touched(g: &mut Ctx) -> HashSet<Address> {
    let n = if g.one_in(24) { 200 + g.below(400) } else { g.size(8) };
    (0..n)
        .map(|_| if g.flip() { Address([g.draw(256) as u8; 20]) } else { addr(g) })
        .collect()
}

pub fn returndata(g: &mut Ctx) -> Vec<u8> {
    let max = match g.draw(16) {
        15 => 65535,
        14 => 600,
        _ => 40,
    };
    blob(g, max)
}

pub const ERROR_KINDS: u64 = 10;

/// `msg_max`: 255 is what the encoding holds.
pub fn error(g: &mut Ctx, msg_max: usize) -> RuntimeError {
    match g.draw(ERROR_KINDS) {
        0 => RuntimeError::OOG,
        1 => RuntimeError::TemplateNotFound(template_addr(g)),
        2 => RuntimeError::AccountNotFound(addr(g)),
        3 => RuntimeError::CompilationFailed {
            target: addr(g),
            template: template_addr(g),
            msg: string(g, msg_max),
        },
        4 => RuntimeError::InstantiationFailed {
            target: addr(g),
            template: template_addr(g),
            msg: string(g, msg_max),
        },
        5 => RuntimeError::FuncNotFound {
            target: addr(g),
            template: template_addr(g),
            func: string(g, 255),
        },
        6 => RuntimeError::FuncFailed {
            target: addr(g),
            template: template_addr(g),
            func: string(g, 255),
            msg: string(g, msg_max),
        },
        7 => RuntimeError::FuncNotCtor {
            template: template_addr(g),
            func: string(g, 255),
        },
        8 => RuntimeError::FuncNotAllowed {
            target: addr(g),
            template: template_addr(g),
            func: string(g, 255),
            msg: string(g, msg_max),
        },
        _ => RuntimeError::FuncInvalidSignature {
            target: addr(g),
            template: template_addr(g),
            func: string(g, 255),
        },
    }
}

pub fn receipt(g: &mut Ctx, msg_max: usize) -> Receipt {
    let kind = g.draw(3);
    if g.draw(2) == 0 {
        match kind {
            0 => Receipt::Deploy(DeployReceipt {
                version: 0,
                success: true,
                error: None,
                addr: Some(template_addr(g)),
                gas_used: gas(g),
                logs: logs(g),
            }),
            1 => Receipt::Spawn(SpawnReceipt {
                version: 0,
                success: true,
                error: None,
                account_addr: Some(addr(g)),
                init_state: Some(state(g)),
                returndata: Some(returndata(g)),
                gas_used: gas(g),
                touched_accounts: touched(g),
                logs: logs(g),
            }),
            _ => Receipt::Call(CallReceipt {
                version: 0,
                success: true,
                error: None,
                new_state: Some(state(g)),
                returndata: Some(returndata(g)),
                gas_used: gas(g),
                touched_accounts: touched(g),
                logs: logs(g),
            }),
        }
    } else {
        let err = error(g, msg_max);
        let logs = logs(g);
        match kind {
            0 => Receipt::Deploy(DeployReceipt::from_err(err, logs)),
            1 => Receipt::Spawn(SpawnReceipt::from_err(err, logs)),
            _ => Receipt::Call(CallReceipt::from_err(err, logs)),
        }
    }
}

pub fn fixed_layout(g: &mut Ctx) -> FixedLayout {
    let n = if g.one_in(30) { 250 + g.below(300) } else { g.size(6) };
    if n == 0 {
        return FixedLayout::from_byte_sizes(0, &[]);
    }
    let first = (g.int(32) as u32).min(u32::MAX - n as u32);
    let sizes: Vec<u32> = (0..n).map(|_| g.int(16) as u32).collect();
    FixedLayout::from_byte_sizes(first, &sizes)
}

pub fn code_section(g: &mut Ctx) -> CodeSection {
    let max = if g.one_in(20) { 70_000 } else { 64 };
    let code = blob(g, max);
    CodeSection::new(CodeKind::Wasm, code, g.int(64), GasMode::Fixed, g.int(32) as u32)
}

pub fn data_section(g: &mut Ctx) -> DataSection {
    let n = g.size(3);
    let mut data = DataSection::with_capacity(n);
    for _ in 0..n {
        data.add_layout(Layout::Fixed(fixed_layout(g)));
    }
    data
}

pub fn ctors_section(g: &mut Ctx) -> CtorsSection {
    let n = if g.one_in(30) { 255 - g.below(2) } else { g.size(4) };
    CtorsSection::new((0..n).map(|_| string(g, 255)).collect())
}

pub fn header_section(g: &mut Ctx) -> HeaderSection {
    HeaderSection::new(g.int(32) as u32, string(g, 255), string(g, 255))
}

pub fn deploy_section(g: &mut Ctx) -> DeploySection {
    let id = tx_id(g);
    DeploySection::new(id, Layer(g.int(64)), addr(g), template_addr(g))
}

/// A template with the core sections and any subset of the others, in any order.
pub fn template(g: &mut Ctx) -> Template {
    let mut list: Vec<Section> = vec![
        code_section(g).into(),
        data_section(g).into(),
        ctors_section(g).into(),
    ];
    if g.flip() {
        list.push(header_section(g).into());
    }
    if g.flip() {
        list.push(deploy_section(g).into());
    }
    for i in (1..list.len()).rev() {
        let j = i - g.below(i + 1);
        list.swap(i, j);
    }
    let mut sections = Sections::default();
    for s in list {
        sections.insert(s);
    }
    Template::from_sections(sections)
}
