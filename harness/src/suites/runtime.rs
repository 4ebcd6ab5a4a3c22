//! Transactions: coins, atomicity, identity, gas, receipts, determinism, access.

use std::path::Path;

use svm_codec::Codec;
use svm_layout::{FixedLayout, Layout};
use svm_types::*;

use crate::gens;
use crate::pbt::{fail, Ctx, Fail, R};
use crate::runner::{Property, Suite};
use crate::vm::*;
use crate::{check, check_eq};

pub const MIXED: Profile = Profile {
    storage: 10,
    transfer: 6,
    log: 4,
    trap: 1,
    branch: 3,
    helper: 2,
    wrong_var: 30,
    odd_alloc: 12,
    max_ops: 6,
    free_verify: false,
};

const ALL_STATE: u32 = BALANCE | VARS | META | LAYERS | TEMPLATES;

fn run(g: &mut Ctx, p: Profile, w: Weights, aspects: u32, templates: usize, max: usize, check_every: u64) -> Result<(u64, u64), Fail> {
    let spec = Spec::generate(g, p, templates);
    let path = g.scratch().join("gs.sqlite");
    let mut net = Net::new(&spec, &path, aspects);
    let steps = 3 + g.below(max);
    let r = with_net(&mut net, |net| {
        net.deploy_all(g)?;
        for at in 0..2 {
            let t = g.below(spec.templates.len());
            let balance = g.int(64);
            net.create(g, at, t, balance)?;
        }
        for _ in 0..steps {
            net.step(g, &w)?;
            if net.diverged {
                return Ok(());
            }
            if check_every <= 1 || g.one_in(check_every) {
                net.check_state("afterwards")?;
            }
        }
        net.check_state("at the end")
    });
    let h = net.history();
    g.describe(h);
    g.label_if(net.diverged, "diverged");
    labels(g, &net);
    r.map(|()| (net.successes, net.failures))
}

fn labels(g: &mut Ctx, net: &Net) {
    for (k, n) in &net.kinds {
        for _ in 0..*n {
            g.label(k);
        }
    }
}

// C01 -------------------------------------------------------------------------------------------

fn c01_case(g: &mut Ctx) -> R {
    let p = Profile { storage: 0, transfer: 12, log: 1, trap: 1, wrong_var: 0, odd_alloc: 0, max_ops: 4, ..MIXED };
    let w = Weights { deploy: 1, spawn: 6, create: 6, call: 30, verify: 1, transfer: 14, increase: 3, commit: 3, rewind: 1, reopen: 1 };
    let (ok, bad) = run(g, p, w, SUCCESS | BALANCE | META, 3, 18, 1)?;
    g.nontrivial = ok > 0 && bad > 0;
    Ok(())
}

// R01 -------------------------------------------------------------------------------------------

fn r01_case(g: &mut Ctx) -> R {
    let p = Profile { trap: 3, ..MIXED };
    let w = Weights { deploy: 2, spawn: 8, create: 5, call: 30, verify: 3, transfer: 4, increase: 3, commit: 3, rewind: 2, reopen: 1 };
    let (ok, bad) = run(g, p, w, SUCCESS | ALL_STATE, 3, 14, 1)?;
    g.nontrivial = ok > 0 && bad > 0;
    Ok(())
}

// R02 -------------------------------------------------------------------------------------------

fn r02_case(g: &mut Ctx) -> R {
    let p = Profile { trap: 1, wrong_var: 0, odd_alloc: 0, max_ops: 3, ..MIXED };
    let spec = Spec::generate(g, p, 4);
    let path = g.scratch().join("gs.sqlite");
    let mut net = Net::new(&spec, &path, SUCCESS | META | VARS | BALANCE | TEMPLATES);
    let r = with_net(&mut net, |net| {
        let steps = 3 + g.below(10);
        for _ in 0..steps {
            match g.draw(4) {
                0 | 1 => {
                    let t = g.below(spec.templates.len());
                    let r = net.deploy(g, t, Gas::new())?;
                    let tmpl = &spec.templates[t];
                    check!(r.success && r.error.is_none(), "deploy", "deploying template {} failed", t);
                    check_eq!(r.addr, Some(tmpl.addr), "template-address", "address of deployed template {}", t);
                }
                _ => {
                    let deployed: Vec<usize> = net.world.deployed.iter().copied().collect();
                    let t = if deployed.is_empty() || g.one_in(6) { g.below(spec.templates.len()) } else { *g.pick(&deployed) };
                    let tmpl = &spec.templates[t];
                    let target = tmpl.spawned_addr();
                    if net.world.accounts.contains_key(&target.0) {
                        continue;
                    }
                    let expected = Address::new(&blake3::hash(&tmpl.addr.0).as_bytes()[..20]);
                    check_eq!(target, expected, "account-address", "address of an account of template {}", t);
                    let func = tmpl.pick_func(g, true);
                    let calldata = net.calldata(g, &target);
                    let name = gens::string(g, 12);
                    let r = net.spawn(g, t, &func, &calldata, &name, Gas::new())?;
                    g.label_if(r.success, "spawned");
                    g.nontrivial |= r.success;
                }
            }
            if net.diverged {
                return Ok(());
            }
            net.check_state("afterwards")?;
        }
        net.commit()?;
        net.reopen()?;
        net.check_state("after a restart")
    });
    let h = net.history();
    g.describe(h);
    labels(g, &net);
    r
}

/// Known finding: the second account spawned from a template replaces the first.
fn r02_respawn_case(g: &mut Ctx) -> R {
    let p = Profile { trap: 0, transfer: 0, wrong_var: 0, odd_alloc: 0, branch: 0, ..MIXED };
    let spec = Spec::generate(g, p, 1);
    let path = g.scratch().join("gs.sqlite");
    let mut net = Net::new(&spec, &path, 0);
    net.deploy_all(g)?;
    let tmpl = &spec.templates[0];
    let ctor = tmpl.funcs[0].name.clone();
    let target = tmpl.spawned_addr();
    let mut calldata = vec![0; 72];
    calldata[48] = g.draw(256) as u8;
    let first = net.spawn(g, 0, &ctor, &calldata, "first", Gas::new())?;
    if !first.success || net.diverged {
        return Ok(());
    }
    let coins = 1 + g.int(63);
    let at = spec.pool.iter().position(|a| *a == target).expect("pool");
    net.increase(at, coins)?;
    let before = net.node.account(&spec, &net.world, &target)?;
    let spawn = SpawnAccount::new(0, &tmpl.addr, "second", &ctor, calldata.clone());
    let envelope = net.envelope(g, Gas::new());
    let context = gens::context(g);
    let r = net.node.vm.spawn(&envelope, &spawn.encode_to_vec(), &context);
    g.nontrivial = true;
    g.describe(format!("template {:?} spawned twice by {}", tmpl.addr, ctor));
    let after = net.node.account(&spec, &net.world, &target)?;
    // A second account elsewhere, or a refusal, would both be right.
    let (before, after) = match (before, after) {
        (Some(b), Some(a)) => (b, a),
        _ => return fail("respawn-lost", "an account is gone after another was spawned from its template"),
    };
    if r.success && r.account_addr == Some(target) {
        check!(
            after.name != "second" || after.balance != 0,
            "respawn-overwrites",
            "spawning a second account of a template replaces the first: {:?} became {:?}",
            before,
            after
        );
    }
    check!(
        before == after,
        "respawn-changes",
        "spawning a second account (success {}) changed the first: {:?} became {:?}",
        r.success,
        before,
        after
    );
    Ok(())
}

// R03 -------------------------------------------------------------------------------------------

fn around(g: &mut Ctx, price: u64) -> Gas {
    match g.draw(8) {
        0 => Gas::new(),
        1 => Gas::with(price),
        2 => Gas::with(price.saturating_sub(1)),
        3 => Gas::with(price + 1),
        4 => Gas::with(g.draw(price + 1)),
        5 => Gas::with(price + g.int(32)),
        6 => Gas::with(g.int(64)),
        _ => Gas::with(price.saturating_sub(g.draw(1 + price / 4))),
    }
}

fn r03_case(g: &mut Ctx) -> R {
    let p = Profile { transfer: 2, wrong_var: 0, odd_alloc: 0, branch: 6, helper: 4, ..MIXED };
    let spec = Spec::generate(g, p, 3);
    let path = g.scratch().join("gs.sqlite");
    let mut net = Net::new(&spec, &path, SUCCESS | META | TEMPLATES | LAYERS);
    let r = with_net(&mut net, |net| {
        let mut decided = (0, 0);
        for t in 0..spec.templates.len() {
            let tmpl = &spec.templates[t];
            let price = 1000 * tmpl.message.len() as u64;
            for last in &[false, true] {
                let gas = if *last { Gas::with(price) } else { around(g, price) };
                let limit = gas.unwrap_or(u64::MAX);
                let r = net.deploy(g, t, gas)?;
                check!(
                    r.success == (limit >= price),
                    "deploy-admission",
                    "a deploy of price {} with the limit {:?} gave success={}",
                    price,
                    gas,
                    r.success
                );
                if r.success {
                    check_eq!(r.gas_used, Gas::with(price), "deploy-gas-used", "gas used by a deploy");
                    decided.0 += 1;
                } else {
                    check_eq!(r.error, Some(RuntimeError::OOG), "deploy-error", "error of a deploy without enough gas");
                    check!(r.addr.is_none(), "deploy-error", "an address in the receipt of a failed deploy");
                    decided.1 += 1;
                }
                net.check_state("after a deploy")?;
            }
            // Spawns without enough gas leave nothing behind, so that they can be repeated.
            let target = tmpl.spawned_addr();
            let tries = 1 + g.below(4);
            for i in 0..=tries {
                if net.world.accounts.contains_key(&target.0) {
                    break;
                }
                let f = if g.draw(5) < 4 { &tmpl.funcs[0] } else { g.pick(&tmpl.funcs) };
                let (ctor, price) = (f.name.clone(), f.price);
                let calldata = net.calldata(g, &target);
                let name = gens::string(g, 12);
                let gas = if i == tries && g.flip() { Gas::new() } else { net.spawn_gas(g, t, &ctor, &calldata, &name, price) };
                let r = net.spawn(g, t, &ctor, &calldata, &name, gas)?;
                if r.error == Some(RuntimeError::OOG) {
                    decided.1 += 1;
                    g.label("spawn-oog");
                } else {
                    decided.0 += 1;
                    g.label("spawn-admitted");
                }
                if net.diverged {
                    return Ok(());
                }
                net.check_state("after a spawn")?;
            }
        }
        g.nontrivial = decided.0 > 0 && decided.1 > 0;
        Ok(())
    });
    let h = net.history();
    g.describe(h);
    labels(g, &net);
    r
}

/// Constructors whose calls multiply: running them takes anything from an instant to forever.
fn r03_chains_case(g: &mut Ctx) -> R {
    let k = if g.one_in(3) { 1 + g.below(12) } else { 1 + g.below(130) };
    let mut price: u128 = 0;
    let mut wat = String::from("(module (memory (export \"memory\") 1) ");
    let last = k - 1;
    for i in 0..k {
        let nops = g.below(4) + (i == 0) as usize;
        let calls = if i == 0 { 0 } else { 1 + g.below(3) };
        let export = if i == last { "(export \"init\")" } else { "" };
        wat.push_str(&format!("(func {} ", export));
        wat.push_str(&"nop ".repeat(nops));
        for _ in 0..calls {
            wat.push_str(&format!("call {} ", i - 1));
        }
        wat.push_str(") ");
        price = price.saturating_mul(calls as u128).saturating_add(nops as u128);
    }
    wat.push_str("(func (export \"svm_alloc\") (param i32) (result i32) i32.const 0) (func (export \"svm_verify\") (result i32) i32.const 0))");
    let code = wat::parse_str(&wat).expect("env: wat");
    let template = Template::new(
        CodeSection::new_fixed(code, 0),
        DataSection::with_layout(Layout::Fixed(FixedLayout::default())),
        CtorsSection::new(vec!["init".to_string()]),
    );
    let message = svm_codec::template::encode(&template);
    let mut node = Node::open(&g.scratch().join("gs.sqlite"));
    let envelope = |gas: Gas| Envelope::new(Address::repeat(1), 0, 0, gas, 0);
    let context = Context::default();
    check!(node.vm.validate_deploy(&message).is_ok(), "chain-rejected", "a valid template is refused: {}", wat);
    let receipt = node.vm.deploy(&envelope(Gas::new()), &message, &context);
    let addr = match receipt.addr {
        Some(addr) => addr,
        None => return fail("chain-deploy", format!("deploying failed with {:?}: {}", receipt.error, wat)),
    };
    let spawn = SpawnAccount::new(0, &addr, "chain", "init", vec![]);
    let target = svm_runtime::compute_account_addr(&spawn);
    let bytes = svm_codec::Codec::encode_to_vec(&spawn);
    let needed = price.saturating_add(1000 * bytes.len() as u128);
    g.describe(format!("{} functions, needs {}: {}", k, needed, wat));
    let fits = needed <= u64::MAX as u128;
    g.label_if(!fits, "beyond-64-bits");
    g.nontrivial = price > 1_000_000;
    for _ in 0..2 {
        let n = needed.min(u64::MAX as u128) as u64;
        let mut gas = around(g, if fits { n.min(u64::MAX - (1 << 33)) } else { 1 << 62 });
        // Never to be run when it takes long.
        let limit = |gas: Gas| gas.unwrap_or(u64::MAX) as u128;
        if price > 200_000 && limit(gas) >= needed {
            gas = if g.flip() { Gas::with(n - 1) } else { Gas::with(g.draw(n - 1)) };
        }
        let enough = limit(gas) > 0 && limit(gas) >= needed;
        let r = node.vm.spawn(&envelope(gas), &bytes, &context);
        if enough {
            check!(r.success, "chain-admission", "a spawn that needs {} is refused with the limit {:?}: {:?}", needed, gas, r.error);
            check!(node.vm.get_account(&target).is_some(), "chain-account", "no account after a spawn");
            g.label("spawn-admitted");
            break;
        }
        check_eq!(r.error, Some(RuntimeError::OOG), "chain-admission", "a spawn that needs {} with the limit {:?}", needed, gas);
        check!(node.vm.get_account(&target).is_none(), "chain-account", "an account after a spawn without enough gas");
        g.label("spawn-oog");
    }
    Ok(())
}

// R04 -------------------------------------------------------------------------------------------

fn r04_case(g: &mut Ctx) -> R {
    let p = Profile { log: 8, trap: 2, ..MIXED };
    let w = Weights { deploy: 1, spawn: 8, create: 4, call: 40, verify: 0, transfer: 2, increase: 3, commit: 2, rewind: 1, reopen: 1 };
    let (ok, bad) = run(g, p, w, SUCCESS | ERROR | RETURNDATA | LOGS | TOUCHED | STATE, 3, 16, 100)?;
    g.nontrivial = ok > 0 && bad > 0;
    Ok(())
}

// R05 -------------------------------------------------------------------------------------------

fn r05_case(g: &mut Ctx) -> R {
    let spec = Spec::generate(g, MIXED, 3);
    let scratch = g.scratch();
    let mut net = Net::new(&spec, &scratch.join("one.sqlite"), 0);
    let w = Weights { deploy: 2, spawn: 8, create: 5, call: 30, verify: 2, transfer: 0, increase: 3, commit: 3, rewind: 2, reopen: 0 };
    let steps = 4 + g.below(16);
    let mut states = vec![];
    net.deploy_all(g)?;
    for at in 0..2 {
        let t = g.below(spec.templates.len());
        let balance = g.int(64);
        net.create(g, at, t, balance)?;
    }
    for _ in 0..net.recs.len() {
        states.push(None);
    }
    for _ in 0..steps {
        net.diverged = false;
        net.step(g, &w)?;
        while states.len() < net.recs.len() {
            states.push(None);
        }
        *states.last_mut().unwrap() = Some(net.node.layer());
    }
    let h = net.history();
    g.describe(h.clone());
    g.nontrivial = net.successes > 0;
    let recs = net.recs.clone();
    let receipts = net.receipts.clone();
    // The second node restarts now and then and looks around in between.
    let mut two = Node::open(&scratch.join("two.sqlite"));
    let mut n = 0;
    for (i, rec) in recs.iter().enumerate() {
        if g.one_in(3) {
            for a in &spec.pool {
                let _ = two.vm.get_account(a);
            }
        }
        if matches!(two.vm.has_uncommitted_changes(), Ok(false)) && g.one_in(4) && two.layer().is_some() {
            g.label("restarts");
            two = Node::open(&scratch.join("two.sqlite"));
        }
        let got = match rec {
            Rec::Deploy(e, m, c) => Some(two.vm.deploy(e, m, c).encode_to_vec()),
            Rec::Spawn(e, m, c) => Some(two.vm.spawn(e, m, c).encode_to_vec()),
            Rec::Call(e, m, c) => Some(two.vm.call(e, m, c).encode_to_vec()),
            Rec::Verify(e, m, c) => Some(two.vm.verify(e, m, c).encode_to_vec()),
            Rec::Create(a, t, name, b, c) => {
                check!(two.vm.create_account(a, *t, name.clone(), *b, *c).is_ok(), "create-account", "creating an account failed");
                None
            }
            Rec::Transfer(..) => unreachable!(),
            Rec::Increase(a, n) => {
                check!(two.vm.increase_balance(a, *n).is_ok(), "increase", "increasing a balance failed");
                None
            }
            Rec::Commit => {
                let _ = two.vm.commit();
                None
            }
            Rec::Rewind(l) => {
                let _ = two.vm.rewind(Layer(*l));
                None
            }
            Rec::Restart => None,
        };
        if let Some(got) = got {
            g.label("compared-receipts");
            check!(
                got == receipts[n],
                "receipt-differs",
                "two nodes give different receipts for step {}: {} and {} after {}",
                i,
                super::hex(&receipts[n]),
                super::hex(&got),
                h
            );
            n += 1;
        }
        if let Some(Some(layer)) = states.get(i) {
            let got = two.layer();
            check!(
                got == *layer,
                "state-differs",
                "two nodes disagree on the state after step {}: {:?} and {:?} after {}",
                i,
                layer,
                got,
                h
            );
        }
    }
    for a in &spec.pool {
        let (x, y) = (net.node.account(&spec, &net.world, a)?, two.account(&spec, &net.world, a)?);
        check_eq!(x, y, "account-differs", "account {} of two nodes after {}", spec.who(a), h);
    }
    Ok(())
}

// R06 -------------------------------------------------------------------------------------------

fn r06_case(g: &mut Ctx) -> R {
    let p = Profile { trap: 0, odd_alloc: 2, free_verify: true, storage: 10, transfer: 8, log: 3, wrong_var: 0, max_ops: 4, ..MIXED };
    let spec = Spec::generate(g, p, 2);
    let path = g.scratch().join("gs.sqlite");
    let mut net = Net::new(&spec, &path, SUCCESS | ERROR | ALL_STATE);
    let r = with_net(&mut net, |net| {
        net.deploy_all(g)?;
        for at in 0..2 {
            let t = g.below(spec.templates.len());
            let balance = 1 + g.int(60);
            net.create(g, at, t, balance)?;
        }
        let mut refused = 0;
        let steps = 4 + g.below(12);
        for _ in 0..steps {
            match g.draw(4) {
                0 => {
                    let t = g.below(spec.templates.len());
                    let tmpl = &spec.templates[t];
                    let target = tmpl.spawned_addr();
                    if net.world.accounts.contains_key(&target.0) {
                        continue;
                    }
                    let func = match g.draw(6) {
                        0 => "svm_alloc".to_string(),
                        1 => "nothing".to_string(),
                        _ => g.pick(&tmpl.funcs).name.clone(),
                    };
                    let calldata = net.calldata(g, &target);
                    let name = gens::string(g, 12);
                    let r = net.spawn(g, t, &func, &calldata, &name, Gas::new())?;
                    refused += u64::from(matches!(r.error, Some(RuntimeError::FuncNotCtor { .. })));
                }
                n => {
                    let present: Vec<[u8; 20]> = net.world.accounts.keys().copied().collect();
                    let target = Address(*g.pick(&present));
                    let tmpl = &spec.templates[net.world.accounts[&target.0].template];
                    let func = match g.draw(8) {
                        0 => "svm_alloc".to_string(),
                        1 => "svm_verify".to_string(),
                        _ => g.pick(&tmpl.funcs).name.clone(),
                    };
                    if func == "svm_verify" && n != 3 {
                        continue;
                    }
                    let calldata = net.calldata(g, &target);
                    let r = net.call(g, target, &func, &calldata, n == 3)?;
                    refused += u64::from(matches!(r.error, Some(RuntimeError::FuncNotAllowed { .. })));
                    g.label_if(n == 3, "verified");
                    g.label_if(n != 3 && tmpl.alloc != Alloc::Plain && !calldata.is_empty(), "odd-alloc");
                }
            }
            if net.diverged {
                return Ok(());
            }
            net.check_state("afterwards")?;
        }
        g.nontrivial = refused > 0;
        for _ in 0..refused {
            g.label("refused-by-ctor-rules");
        }
        Ok(())
    });
    let h = net.history();
    g.describe(h);
    labels(g, &net);
    r
}

// R07 -------------------------------------------------------------------------------------------

fn r07_case(g: &mut Ctx) -> R {
    let p = Profile { storage: 30, transfer: 0, log: 3, trap: 0, branch: 2, helper: 2, wrong_var: 25, odd_alloc: 0, max_ops: 12, free_verify: false };
    let w = Weights { deploy: 1, spawn: 8, create: 6, call: 40, verify: 0, transfer: 0, increase: 0, commit: 2, rewind: 1, reopen: 1 };
    let (ok, _) = run(g, p, w, SUCCESS | VARS | RETURNDATA | LOGS, 2, 14, 1)?;
    g.nontrivial = ok > 1;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
/// Genesis accounts: they have what they were given, whatever is done to the others.
fn r02_genesis_case(g: &mut Ctx) -> R {
    let path = g.scratch().join("gs.sqlite");
    let mut node = Node::open(&path);
    let sct = svm_genesis_config::sct().0;
    let mut now: Vec<(Address, String, u64, u128)> = vec![];
    let mut committed = now.clone();
    let mut log = vec![];
    for _ in 0..2 + g.below(14) {
        match g.draw(8) {
            0..=2 => {
                let addr = if now.is_empty() || g.flip() {
                    gens::addr(g)
                } else {
                    // one close to another
                    let mut a = g.pick(&now).0;
                    a.0[g.below(20)] ^= 1 << g.draw(8);
                    a
                };
                if now.iter().any(|a| a.0 == addr) {
                    continue;
                }
                let (name, balance, counter) = (gens::string(g, 12), g.int(64), gens::u128(g));
                log.push(format!("genesis {:?} {:?} {} {}", addr, name, balance, counter));
                let r = node.vm.create_genesis_account(&addr, &name, balance, counter);
                check!(r.is_ok(), "create", "creating a genesis account failed");
                now.push((addr, name, balance, counter));
            }
            3 | 4 if !now.is_empty() => {
                let i = g.below(now.len());
                let n = g.int(64) % (u64::MAX - now[i].2).max(1);
                log.push(format!("increase {:?} by {}", now[i].0, n));
                check!(node.vm.increase_balance(&now[i].0, n).is_ok(), "increase", "increasing a balance failed");
                now[i].2 += n;
            }
            5 | 6 => {
                log.push("commit".to_string());
                check!(node.vm.commit().is_ok(), "commit", "committing failed");
                committed = now.clone();
            }
            _ => {
                log.push("reopen".to_string());
                drop(node);
                node = Node::open(&path);
                now = committed.clone();
            }
        }
        for (addr, name, balance, counter) in &now {
            let got = node.vm.get_account(addr);
            check!(got == Some((*balance, *counter, sct)), "account", "account {:?} is {:?} instead of {} {} after {:?}", addr, got, balance, counter, log);
            let st = node.rt.block_on(svm_state::AccountStorage::load(node.gs.clone(), addr));
            let got = st.ok().and_then(|st| node.rt.block_on(st.name()).ok());
            check!(got.as_ref() == Some(name), "name", "account {:?} has the name {:?} instead of {:?} after {:?}", addr, got, name, log);
        }
        let other = gens::addr(g);
        if now.iter().all(|a| a.0 != other) {
            check!(node.vm.get_account(&other).is_none(), "phantom", "there is an account {:?} after {:?}", other, log);
        }
    }
    g.mix(log.join(";").as_bytes());
    g.describe(log.join("; "));
    g.nontrivial = now.len() >= 2;
    Ok(())
}

// R09 -------------------------------------------------------------------------------------------

/// The address space this process uses, in kilobytes, and the open files below a directory.
fn resources(dir: &Path) -> (u64, usize) {
    let status = std::fs::read_to_string("/proc/self/status").expect("env: status");
    let size = status.lines().find_map(|l| l.strip_prefix("VmSize:")).expect("env: VmSize");
    let size = size.trim().trim_end_matches("kB").trim().parse().expect("env: VmSize");
    let mut open = 0;
    for fd in std::fs::read_dir("/proc/self/fd").expect("env: fd") {
        let link = fd.ok().and_then(|fd| std::fs::read_link(fd.path()).ok());
        open += link.map_or(0, |l| l.starts_with(dir) as usize);
    }
    (size, open)
}

fn r09_case(g: &mut Ctx) -> R {
    let p = Profile { trap: 3, ..MIXED };
    let w = Weights { deploy: 1, spawn: 10, create: 1, call: 40, verify: 6, transfer: 1, increase: 1, commit: 2, rewind: 1, reopen: 1 };
    let spec = Spec::generate(g, p, 3);
    let scratch = g.scratch();
    let mut net = Net::new(&spec, &scratch.join("gs.sqlite"), 0);
    let steps = 3 + g.below(30);
    net.deploy_all(g)?;
    for at in 0..2 {
        let t = g.below(spec.templates.len());
        let balance = g.int(64);
        net.create(g, at, t, balance)?;
    }
    let (before, _) = resources(&scratch);
    let mut most = 0;
    for _ in 0..steps {
        net.diverged = false;
        net.step(g, &w)?;
        let (now, open) = resources(&scratch);
        most = most.max(open);
        // The database's threads and the allocator's arenas take some, a memory with its guard pages 6 GB.
        check!(now < before + (4 << 20), "address-space", "the node uses {} kB instead of {} kB after {}", now, before, net.history());
    }
    let h = net.history();
    g.describe(h.clone());
    labels(g, &net);
    g.nontrivial = net.successes > 0 && net.failures > 0;
    check!(most > 0, "open", "no file of the node is open");
    drop(net);
    // Connections are closed by threads of their own.
    let mut left = 0;
    for _ in 0..1000 {
        left = resources(&scratch).1;
        if left == 0 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    check!(left == 0, "files", "{} files of a node that is gone are open after {}", left, h);
    Ok(())
}

// R08
// ---------------------------------------------------------------------------------------------

/// A template whose function allocates blocks, marks both ends of each, and returns their offsets,
/// what the ends hold afterwards, and the calldata as it then is.
fn alloc_template(pages: u32, sizes: &[u32], calldata: u32) -> Vec<u8> {
    let mut w = String::from("(module\n");
    for (name, ty) in &[("static_alloc", "(param i32) (result i32)"), ("calldata_offset", "(result i32)"), ("set_returndata", "(param i32 i32)")] {
        w += &format!("  (import \"svm\" \"svm_{}\" (func ${} {}))\n", name, name, ty);
    }
    w += &format!("  (memory (export \"memory\") {} {})\n", pages, pages);
    w += "  (func (export \"svm_verify\") (result i32) i32.const 0)\n";
    w += "  (func (export \"svm_alloc\") (param i32) (result i32) local.get 0 call $static_alloc)\n";
    w += "  (func (export \"run\")\n    (local $out i32)";
    for i in 0..sizes.len() {
        w += &format!(" (local $b{} i32)", i);
    }
    w += "\n";
    for (i, s) in sizes.iter().enumerate() {
        w += &format!("    i32.const {} call $static_alloc local.set $b{}\n", *s as i32, i);
        w += &format!("    local.get $b{} i32.const {} i32.store8\n", i, 100 + i);
        w += &format!("    local.get $b{} i32.const {} i32.add i32.const {} i32.store8\n", i, (*s - 1) as i32, 100 + i);
    }
    let len = sizes.len() as u32 * 6 + calldata;
    w += &format!("    i32.const {} call $static_alloc local.set $out\n", len.max(1));
    for i in 0..sizes.len() {
        let at = i * 6;
        w += &format!("    local.get $out local.get $b{} i32.store offset={} align=1\n", i, at);
        w += &format!("    local.get $out local.get $b{} i32.load8_u i32.store8 offset={}\n", i, at + 4);
        w += &format!("    local.get $out local.get $b{} i32.const {} i32.add i32.load8_u i32.store8 offset={}\n", i, (sizes[i] - 1) as i32, at + 5);
    }
    for i in 0..calldata {
        let at = sizes.len() as u32 * 6 + i;
        w += &format!("    local.get $out call $calldata_offset i32.load8_u offset={} i32.store8 offset={}\n", i, at);
    }
    w += &format!("    local.get $out i32.const {} call $set_returndata)\n)", len);
    wat::parse_str(&w).unwrap_or_else(|e| panic!("env: wat {}: {}", e, w))
}

fn r08_case(g: &mut Ctx) -> R {
    let pages = 1 + g.draw(3) as u32;
    let memory = pages as u64 * 65536;
    let n = 1 + g.below(10);
    let calldata = if g.one_in(5) { vec![] } else { gens::blob(g, 40) };
    let mut sizes: Vec<u32> = vec![];
    let mut used = calldata.len() as u64 + n as u64 * 6 + calldata.len() as u64;
    for _ in 0..n {
        let left = memory.saturating_sub(used);
        let size = match g.weighted(&[6, 4, 2, 2, 1]) {
            0 => 1 + g.draw(64),
            1 => 1 + g.draw(5000),
            2 => 1 + g.draw(memory),
            // Around what is left.
            3 => (left + 40).saturating_sub(g.draw(400)),
            _ => g.int(32),
        };
        let size = size.max(1).min(u32::MAX as u64);
        sizes.push(size as u32);
        used += size;
    }
    let code = alloc_template(pages, &sizes, calldata.len() as u32);
    let template = Template::new(
        CodeSection::new_fixed(code.clone(), 0),
        DataSection::with_layout(svm_layout::Layout::Fixed(svm_layout::FixedLayout::from_byte_sizes(0, &[4]))),
        CtorsSection::new(vec![]),
    );
    let mut message = vec![];
    template.sections().encode(&mut message);
    let mut node = Node::open(&g.scratch().join("gs.sqlite"));
    let r = node.vm.deploy(&Envelope::default(), &message, &Context::default());
    check!(r.success, "deploy", "deploying failed");
    let addr = Address([7; 20]);
    let hash = *blake3::hash(&code).as_bytes();
    let created = node.vm.create_account(&addr, TemplateAddr::new(&hash[..20]), "a".to_string(), 0, 0);
    check!(created.is_ok(), "create-account", "creating an account failed");
    let what = format!("{} pages, calldata of {} bytes, blocks of {:?}", pages, calldata.len(), sizes);
    g.describe(what.clone());
    g.mix(what.as_bytes());
    for round in 0..1 + g.draw(2) {
        let tx = Transaction { version: 0, target: addr, func_name: "run".to_string(), verifydata: vec![], calldata: calldata.clone() };
        let r = node.vm.call(&Envelope::default(), &tx.encode_to_vec(), &Context::default());
        // An allocator may need some space of its own.
        let slack = 64 * (n as u64 + 3);
        if used > memory {
            g.label("more than there is");
            check!(!r.success, "overcommitted", "{} of {} bytes were handed out: {}", used, memory, what);
            continue;
        }
        if !r.success {
            check!(used + slack > memory, "refused", "{} of {} bytes were not handed out (call {}): {}", used, memory, round, what);
            continue;
        }
        g.label("allocated");
        let out = r.returndata.clone().unwrap_or_default();
        check_eq!(out.len(), n * 6 + calldata.len(), "returndata", "length: {}", what);
        let mut blocks: Vec<(u64, u64)> = vec![];
        for (i, s) in sizes.iter().enumerate() {
            let at = &out[i * 6..i * 6 + 6];
            let off = u32::from_le_bytes([at[0], at[1], at[2], at[3]]) as u64;
            check!(off != 0, "null", "block {} is at offset 0: {}", i, what);
            check!(off + *s as u64 <= memory, "outside", "block {} is at {}: {}", i, off, what);
            let two = [100 + i as u8; 2];
            check!(at[4..] == two, "overwritten", "block {} at {} holds {:?} at its ends: {}", i, off, &at[4..], what);
            for (j, (o, l)) in blocks.iter().enumerate() {
                check!(off + *s as u64 <= *o || *o + *l <= off, "overlap", "block {} at {} overlaps block {} at {}: {}", i, off, j, o, what);
            }
            blocks.push((off, *s as u64));
        }
        check!(out[n * 6..] == calldata[..], "calldata-overwritten", "the calldata changed to {}: {}", crate::suites::hex(&out[n * 6..]), what);
        if n >= 2 {
            g.nontrivial = true;
        }
    }
    Ok(())
}

const ENV: &str = "each worker process runs on one CPU, with the state in a database file in a scratch directory; templates are generated from a small language of host calls, branches and helper functions";

pub fn all() -> Vec<Property> {
    let prop = |id, rule, suites| Property { id, level: "exploration", rule, assumptions: &[ENV], suites };
    vec![
        prop(
            "C01",
            "Histories of 3-20 steps (calls and constructors that transfer coins, direct transfers, balance increases, account creations, failing transactions, commits, rewinds, restarts) on a node, compared after every step with a model that moves coins; amounts cluster around the balance of the source and the room of the destination. Non-trivial: at least one transaction succeeded and one failed.",
            vec![Suite { name: "coins", quick: 3200, thorough: 64000, chunk: 20, case: c01_case }],
        ),
        prop(
            "R01",
            "Histories of 3-16 steps with functions that write variables, transfer coins, log and then trap, misuse host functions or run out of bounds at generated points; after every step all accounts, variables, templates and the layer are compared with a model in which a failed transaction does nothing. Non-trivial: at least one transaction succeeded and one failed.",
            vec![Suite { name: "atomicity", quick: 4000, thorough: 80000, chunk: 20, case: r01_case }],
        ),
        prop(
            "R02",
            "identity: generated templates are deployed (also again) and spawned; addresses, stored sections, names, templates, balances, counters and variables are compared with a model, also after a restart. genesis: accounts made with create_genesis_account, some with similar addresses, in between increases, commits and restarts. respawn: a template is spawned twice; the first account must stay as it was (known finding). Non-trivial: an account was spawned.",
            vec![
                Suite { name: "identity", quick: 5600, thorough: 112000, chunk: 20, case: r02_case },
                Suite { name: "genesis", quick: 1600, thorough: 40_000, chunk: 40, case: r02_genesis_case },
                Suite { name: "respawn", quick: 64, thorough: 400, chunk: 8, case: r02_respawn_case },
            ],
        ),
        prop(
            "R03",
            "Templates are deployed and spawned with gas limits at, just below, just above and around the price (1000 per byte of the message, plus the price of the constructor, computed independently while generating it), with none and with zero; admission, the error, the gas used by deploys and the absence of any effect are compared. chains: constructors of 1-130 functions that call one another 1-3 times, so that their price reaches beyond 64 bits; they are admitted only with enough gas (those that would run for long are given less). Non-trivial: at least one admission and one refusal; a price beyond a million.",
            vec![
                Suite { name: "admission", quick: 5600, thorough: 112000, chunk: 20, case: r03_case },
                Suite { name: "chains", quick: 1200, thorough: 40_000, chunk: 20, case: r03_chains_case },
            ],
        ),
        prop(
            "R04",
            "Histories of 3-18 transactions; outcome, error (kind, account, template, function), returndata, logs (order, contents, also of failed transactions), touched accounts and the state of every receipt are compared with what a model of the functions predicts. Non-trivial: at least one transaction succeeded and one failed.",
            vec![Suite { name: "receipts", quick: 5600, thorough: 112000, chunk: 20, case: r04_case }],
        ),
        prop(
            "R05",
            "A history of 6-22 steps is run on a node and again on a second one that restarts and is queried at generated points; the encoded receipts, the layers with their fingerprints after each step and the accounts at the end must be identical. Non-trivial: at least one transaction succeeded.",
            vec![Suite { name: "two_nodes", quick: 2800, thorough: 56000, chunk: 20, case: r05_case }],
        ),
        prop(
            "R09",
            "Histories of 3-33 transactions of all kinds (deployments, spawns, calls and verifications that succeed, trap, misuse host functions or cannot be compiled or instantiated), restarts, commits and rewinds; the address space of the process must not grow by more than 4 GB within a history (a Wasm memory takes 6 GB), and once the node is gone none of its files is open. Non-trivial: at least one transaction succeeded and one failed.",
            vec![Suite { name: "resources", quick: 4000, thorough: 80_000, chunk: 20, case: r09_case }],
        ),
        prop(
            "R08",
            "Functions that allocate 1-10 blocks with svm_static_alloc (1 byte to more than the memory, clustered around what is left of 1-3 pages), mark both ends of each and return the offsets, the marks and the calldata (itself placed by svm_alloc); called once or twice. Blocks must not be at 0, overlap, leave the memory, nor disturb each other or the calldata; requests beyond the memory fail, those well within it succeed. Non-trivial: two or more blocks were handed out.",
            vec![Suite { name: "static_alloc", quick: 8000, thorough: 160_000, chunk: 50, case: r08_case }],
        ),
        prop(
            "R06",
            "Templates with constructors, other functions, missing and wrongly typed ones, svm_alloc that reads, writes or transfers, and svm_verify that does anything; spawns, calls and verifications by any name, compared with a model after each. Non-trivial: a constructor was called or a non-constructor spawned, and refused.",
            vec![Suite { name: "access", quick: 5600, thorough: 112000, chunk: 20, case: r06_case }],
        ),
        prop(
            "R07",
            "Calls of functions with up to 12 storage host calls on variables of 1-32 bytes at any index, including missing ones and ones too large, with constants and calldata; variables, and what was read (as returndata and logs), are compared with a model after every call. Non-trivial: at least two calls succeeded.",
            vec![Suite { name: "host_storage", quick: 3600, thorough: 72000, chunk: 20, case: r07_case }],
        ),
    ]
}
