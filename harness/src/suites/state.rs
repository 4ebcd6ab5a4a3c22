//! S01-S05, A01: the global state against a model.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, StorageError, TemplateStorage};
use svm_types::*;
use tokio::runtime::Runtime as Tokio;

use crate::pbt::{fail, Ctx, Fail, R};
use crate::runner::{Property, Suite};
use crate::{check, check_eq, faults, gens};

pub fn tokio_rt() -> Tokio {
    tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .expect("env: tokio runtime")
}

// ---------------------------------------------------------------------------------------------
// The model
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    name: String,
    template: Option<usize>,
    balance: u64,
    counter: u128,
    vars: Vec<Vec<u8>>,
    written: Vec<bool>,
}

/// What a reader sees.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct World {
    templates: BTreeMap<usize, Option<HeaderSection>>,
    accounts: BTreeMap<usize, Acct>,
}

impl World {
    /// The same up to which variables were ever written (a variable never written reads as zeros).
    fn same_values(&self, other: &World) -> bool {
        let strip = |w: &World| {
            let mut w = w.clone();
            for a in w.accounts.values_mut() {
                a.written.clear();
            }
            w
        };
        strip(self) == strip(other)
    }
}

pub struct Spec {
    pub addrs: Vec<Address>,
    pub template_addrs: Vec<TemplateAddr>,
    pub firsts: Vec<u32>,
    pub sizes: Vec<Vec<u32>>,
    pub codes: Vec<Vec<u8>>,
}

pub fn var_size(g: &mut Ctx) -> u32 {
    match g.draw(10) {
        0..=2 => 1 + g.draw(8) as u32,
        3 => *g.pick(&[4, 8, 20]),
        4..=5 => 28 + g.draw(9) as u32,
        6 => 60 + g.draw(10) as u32,
        7 => 1 + g.draw(31) as u32,
        8 => 32 * (1 + g.draw(3) as u32),
        _ => 1 + g.draw(140) as u32,
    }
}

impl Spec {
    fn new(g: &mut Ctx, accounts: usize, templates: usize, vars: usize) -> Spec {
        let mut addrs: Vec<Address> = Vec::new();
        while addrs.len() < accounts {
            let a = match g.draw(4) {
                // near another address
                0 if !addrs.is_empty() => {
                    let mut a = addrs[g.below(addrs.len())].0;
                    let at = *g.pick(&[0, 10, 19]);
                    a[at] ^= 1 + g.draw(255) as u8;
                    Address(a)
                }
                1 => Address([g.draw(256) as u8; 20]),
                _ => gens::addr(g),
            };
            if addrs.contains(&a) {
                let mut b = a.0;
                b[7] = b[7].wrapping_add(addrs.len() as u8 + 1);
                if addrs.contains(&Address(b)) {
                    continue;
                }
                addrs.push(Address(b));
            } else {
                addrs.push(a);
            }
        }
        let mut spec = Spec { addrs, template_addrs: vec![], firsts: vec![], sizes: vec![], codes: vec![] };
        for i in 0..templates {
            // A template may have the address of an account.
            let mut t = if i == 0 { TemplateAddr(spec.addrs[0].0) } else { gens::template_addr(g) };
            t.0[19] = i as u8;
            t.0[18] |= 1;
            spec.template_addrs.push(t);
            spec.firsts.push(match g.draw(3) {
                0 => 0,
                1 => g.draw(10) as u32,
                _ => (g.int(32) as u32).min(u32::MAX - 64),
            });
            let n = if g.one_in(8) { 0 } else { 1 + g.below(vars) };
            spec.sizes.push((0..n).map(|_| var_size(g)).collect());
            spec.codes.push(gens::blob(g, 40));
        }
        spec
    }

    fn sections(&self, t: usize, header: &Option<HeaderSection>) -> (Sections, Sections) {
        // The first id of a layout without variables has no meaning.
        let first = if self.sizes[t].is_empty() { 0 } else { self.firsts[t] };
        let layout = FixedLayout::from_byte_sizes(first, &self.sizes[t]);
        let data = DataSection::with_layout(Layout::Fixed(layout));
        let code = CodeSection::new_fixed(self.codes[t].clone(), 0);
        let template = Template::new(code, data, CtorsSection::new(vec!["init".to_string()])).with_header(header.clone());
        let mut core = template.sections().clone();
        let noncore = core.remove_noncore();
        (core, noncore)
    }

    fn template(&self, t: usize, header: &Option<HeaderSection>) -> Template {
        let (mut core, noncore) = self.sections(t, header);
        for s in noncore.iter() {
            core.insert(s.clone());
        }
        Template::from_sections(core)
    }
}

// ---------------------------------------------------------------------------------------------
// Model and implementation, side by side
// ---------------------------------------------------------------------------------------------

pub struct Duo<'a> {
    pub rt: &'a Tokio,
    pub path: PathBuf,
    pub gs: GlobalState,
    pub spec: Spec,
    pub base: World,
    pub layers: Vec<World>,
    pub prints: Vec<State>,
    pub saved: World,
    pub now: World,
    pub has_saved: bool,
    pub has_dirty: bool,
    pub log: Vec<String>,
    /// Whether the database is in memory.
    pub memory: bool,
}

pub fn uri(path: &Path) -> String {
    format!("sqlite://{}?mode=rwc", path.display())
}

fn st<T>(what: &str, r: Result<T, StorageError>) -> Result<T, Fail> {
    r.map_err(|e| Fail { sig: "storage-error".to_string(), msg: format!("{}: {:?}", what, e) })
}

/// How often each kind of operation is made.
#[derive(Clone, Copy)]
pub struct Weights {
    pub write: u64,
    pub create: u64,
    pub read: u64,
    pub checkpoint: u64,
    pub commit: u64,
    pub rollback: u64,
    pub rewind: u64,
    pub reopen: u64,
    pub history: u64,
}

impl<'a> Duo<'a> {
    pub fn new(g: &mut Ctx, rt: &'a Tokio, accounts: usize, templates: usize, vars: usize) -> Duo<'a> {
        let spec = Spec::new(g, accounts, templates, vars);
        let path = g.scratch().join("gs.sqlite");
        let mut duo = Self::with_spec(g, rt, spec, path);
        if g.one_in(8) {
            let genesis = genesis_of(&duo.spec, &duo.base);
            duo.gs = rt.block_on(GlobalState::in_memory(genesis));
            duo.memory = true;
            duo.note("in memory".to_string());
            g.label("in-memory");
        }
        duo
    }

    pub fn with_spec(g: &mut Ctx, rt: &'a Tokio, spec: Spec, path: PathBuf) -> Duo<'a> {
        // Some of the templates exist at genesis.
        let mut base = World::default();
        for t in 0..spec.sizes.len() {
            if t == 0 || g.flip() {
                base.templates.insert(t, None);
            }
        }
        let gs = rt.block_on(GlobalState::new(&uri(&path), genesis_of(&spec, &base)));
        Duo {
            rt,
            path,
            gs,
            spec,
            saved: base.clone(),
            now: base.clone(),
            base,
            layers: vec![],
            prints: vec![],
            has_saved: false,
            has_dirty: false,
            log: vec![],
            memory: false,
        }
    }

    /// Time passes: seconds, minutes or days.
    fn op_pass(&mut self, g: &mut Ctx) -> R {
        let s = [1, 40, 700, 2000, 100_000][g.below(5)];
        self.note(format!("{} s pass", s));
        g.label("time-passes");
        crate::faults::pass(s);
        // for what waits for it
        self.rt.block_on(async { tokio::time::sleep(std::time::Duration::from_millis(2)).await });
        Ok(())
    }

    fn committed(&self) -> &World {
        self.layers.last().unwrap_or(&self.base)
    }

    pub fn note(&mut self, s: String) {
        self.log.push(s);
    }

    pub fn history(&self) -> String {
        let sizes: Vec<String> = self
            .spec
            .sizes
            .iter()
            .zip(&self.spec.firsts)
            .map(|(s, f)| format!("{}:{:?}", f, s))
            .collect();
        format!("layouts {}; {}", sizes.join(" "), self.log.join("; "))
    }

    fn load(&self, gs: &GlobalState, a: usize) -> Result<AccountStorage, StorageError> {
        self.rt.block_on(AccountStorage::load(gs.clone(), &self.spec.addrs[a]))
    }

    /// Compares one account with what `world` says it is.
    fn check_account(&self, gs: &GlobalState, world: &World, a: usize, ctx: &str) -> R {
        let loaded = self.load(gs, a);
        let acct = match world.accounts.get(&a) {
            None => {
                check!(
                    matches!(loaded, Err(StorageError::NotFound { .. })),
                    "phantom-account",
                    "{}: account {} shouldn't exist ({:?})",
                    ctx,
                    a,
                    loaded.err()
                );
                return Ok(());
            }
            Some(x) => x,
        };
        if acct.template.is_none() {
            // An account without a template can't be loaded; its handle is all there is.
            return Ok(());
        }
        let s = st(&format!("{}: loading account {}", ctx, a), loaded)?;
        let rt = self.rt;
        check_eq!(st(ctx, rt.block_on(s.balance()))?, acct.balance, "balance", "{}: balance of {}", ctx, a);
        check_eq!(st(ctx, rt.block_on(s.counter()))?, acct.counter, "counter", "{}: counter of {}", ctx, a);
        check_eq!(st(ctx, rt.block_on(s.name()))?, acct.name, "name", "{}: name of {}", ctx, a);
        let t = acct.template.unwrap();
        check_eq!(
            st(ctx, rt.block_on(s.template_addr()))?,
            self.spec.template_addrs[t],
            "template",
            "{}: template of {}",
            ctx,
            a
        );
        for (i, v) in acct.vars.iter().enumerate() {
            let id = self.spec.firsts[t] + i as u32;
            let got = st(ctx, rt.block_on(s.get_var_vec(id)))?;
            check_eq!(got, *v, "variable", "{}: variable #{} of {}", ctx, i, a);
        }
        Ok(())
    }

    fn check_template(&self, gs: &GlobalState, world: &World, t: usize, ctx: &str) -> R {
        let ts = st(ctx, TemplateStorage::load(gs.clone(), &self.spec.template_addrs[t]))?;
        let got = self.rt.block_on(ts.sections());
        match world.templates.get(&t) {
            None => check!(
                matches!(got, Err(StorageError::NotFound { .. })),
                "phantom-template",
                "{}: template {} shouldn't exist",
                ctx,
                t
            ),
            Some(h) => {
                let got = st(&format!("{}: template {}", ctx, t), got)?;
                let expected = self.spec.template(t, h);
                check!(
                    got == *expected.sections(),
                    "template-sections",
                    "{}: template {} reads as {:?}, expected {:?}",
                    ctx,
                    t,
                    got,
                    expected
                );
            }
        }
        Ok(())
    }

    fn check_world(&self, gs: &GlobalState, world: &World, ctx: &str) -> R {
        for a in 0..self.spec.addrs.len() {
            self.check_account(gs, world, a, ctx)?;
        }
        for t in 0..self.spec.sizes.len() {
            self.check_template(gs, world, t, ctx)?;
        }
        Ok(())
    }

    pub fn check_now(&mut self, ctx: &str) -> R {
        self.check_world(&self.gs, &self.now, ctx)?;
        check_eq!(
            self.gs.has_uncommitted_changes(),
            self.has_saved || self.has_dirty,
            "uncommitted",
            "{}: has_uncommitted_changes",
            ctx
        );
        if !self.layers.is_empty() {
            let (layer, state) = match current_layer(self.rt, &mut self.gs) {
                Some(r) => st(ctx, r)?,
                None => return fail("current-layer", format!("{}: no current layer", ctx)),
            };
            check_eq!(layer.0, self.layers.len() as u64 - 1, "current-layer", "{}: current layer", ctx);
            check_eq!(state, *self.prints.last().unwrap(), "current-state", "{}: fingerprint of the current layer", ctx);
        }
        Ok(())
    }

    pub fn check_layer(&self, n: usize, a: Option<usize>, ctx: &str) -> R {
        let mut gs = self.gs.clone();
        *gs.layer_query_parameter_mut() = Some(Layer(n as u64));
        let world = &self.layers[n];
        let ctx = format!("{}: as of layer {}", ctx, n);
        match a {
            Some(a) => {
                self.check_account(&gs, world, a, &ctx)?;
                let t = a % self.spec.sizes.len();
                self.check_template(&gs, world, t, &ctx)
            }
            None => self.check_world(&gs, world, &ctx),
        }
    }

    pub fn check_layers(&self, ctx: &str) -> R {
        let all = self.layers.len();
        for n in 0..all {
            // of very many layers, a part
            if all < 60 || n < 3 || n + 3 > all || n % 17 == all % 17 {
                self.check_layer(n, None, ctx)?;
            }
        }
        Ok(())
    }

    // Operations --------------------------------------------------------------------------------

    fn op_create(&mut self, g: &mut Ctx) -> R {
        if g.draw(3) == 0 {
            let t = g.below(self.spec.sizes.len());
            let header = if g.flip() { Some(HeaderSection::new(g.int(32) as u32, gens::string(g, 20), gens::string(g, 30))) } else { None };
            let (core, noncore) = self.spec.sections(t, &header);
            self.note(format!("template {} header {}", t, header.is_some()));
            let r = self.rt.block_on(TemplateStorage::create(
                self.gs.clone(),
                &self.spec.template_addrs[t],
                core,
                noncore,
            ));
            st("create template", r.map(|_| ()))?;
            self.now.templates.insert(t, header);
            self.has_dirty = true;
            return Ok(());
        }
        let a = g.below(self.spec.addrs.len());
        if self.now.accounts.contains_key(&a) {
            return Ok(());
        }
        let longest = if g.draw(8) == 7 { 255 } else { 12 };
        let name = gens::string(g, longest);
        let (balance, counter) = (g.int(64), gens::u128(g));
        let t = a % self.spec.sizes.len();
        self.note(format!("create account {} template {} balance {} counter {}", a, t, balance, counter));
        let r = self.rt.block_on(AccountStorage::create(
            self.gs.clone(),
            &self.spec.addrs[a],
            name.clone(),
            self.spec.template_addrs[t],
            balance,
            counter,
        ));
        if self.now.templates.contains_key(&t) {
            st("create account", r.map(|_| ()))?;
            let vars: Vec<Vec<u8>> = self.spec.sizes[t].iter().map(|n| vec![0; *n as usize]).collect();
            let written = vec![false; vars.len()];
            self.now.accounts.insert(a, Acct { name, template: Some(t), balance, counter, vars, written });
            self.has_dirty = true;
        } else {
            check!(
                matches!(r, Err(StorageError::NotFound { .. })),
                "create-without-template",
                "created account {} of a template that doesn't exist",
                a
            );
        }
        Ok(())
    }

    fn op_write(&mut self, g: &mut Ctx) -> R {
        let existing: Vec<usize> = self.now.accounts.keys().copied().collect();
        if existing.is_empty() {
            return Ok(());
        }
        let a = *g.pick(&existing);
        let mut s = st("load", self.load(&self.gs, a))?;
        let nvars = self.now.accounts[&a].vars.len();
        let what = if nvars == 0 { g.draw(2) } else { g.draw(8) };
        match what {
            0 => {
                let b = g.int(64);
                self.note(format!("balance of {} = {}", a, b));
                st("set_balance", self.rt.block_on(s.set_balance(b)))?;
                self.now.accounts.get_mut(&a).unwrap().balance = b;
            }
            1 => {
                let c = gens::u128(g);
                self.note(format!("counter of {} = {}", a, c));
                st("set_counter", self.rt.block_on(s.set_counter(c)))?;
                self.now.accounts.get_mut(&a).unwrap().counter = c;
            }
            _ => {
                let t = self.now.accounts[&a].template.unwrap();
                let i = g.below(nvars);
                let id = self.spec.firsts[t] + i as u32;
                let size = self.spec.sizes[t][i] as usize;
                let value: Vec<u8> = match g.draw(6) {
                    0 if size <= 4 => {
                        let v = g.int(32) as i32;
                        self.note(format!("var {} of {} = i32 {}", i, a, v));
                        st("set_var_i32", self.rt.block_on(s.set_var_i32(id, v)))?;
                        v.to_le_bytes()[..size].to_vec()
                    }
                    1 if size <= 8 => {
                        let v = g.int(64) as i64;
                        self.note(format!("var {} of {} = i64 {}", i, a, v));
                        st("set_var_i64", self.rt.block_on(s.set_var_i64(id, v)))?;
                        v.to_le_bytes()[..size].to_vec()
                    }
                    n => {
                        let extra = if n == 2 { g.below(40) } else { 0 };
                        let v = g.bytes(size + extra);
                        self.note(format!("var {} of {} = {}", i, a, super::codec::hex(&v)));
                        st("set_var_bytes", self.rt.block_on(s.set_var_bytes(id, &v)))?;
                        v[..size].to_vec()
                    }
                };
                let acct = self.now.accounts.get_mut(&a).unwrap();
                acct.vars[i] = value;
                acct.written[i] = true;
            }
        }
        self.has_dirty = true;
        Ok(())
    }

    fn op_read(&mut self, g: &mut Ctx) -> R {
        let a = g.below(self.spec.addrs.len());
        self.check_account(&self.gs, &self.now, a, "read")?;
        let acct = match self.now.accounts.get(&a) {
            Some(x) if !x.vars.is_empty() => x,
            _ => return Ok(()),
        };
        // The other ways to read a variable.
        let s = st("load", self.load(&self.gs, a))?;
        let t = acct.template.unwrap();
        let i = g.below(acct.vars.len());
        let id = self.spec.firsts[t] + i as u32;
        let v = &acct.vars[i];
        let pad = g.below(8);
        let mut buf = vec![0xA5; v.len() + pad];
        st("get_var", self.rt.block_on(s.get_var(id, &mut buf)))?;
        let mut expected = v.clone();
        expected.extend(vec![0xA5; pad]);
        check_eq!(buf, expected, "variable", "get_var of #{} of {} into a buffer with {} bytes to spare", i, a, pad);
        if v.len() <= 8 {
            let mut b = [0; 8];
            b[..v.len()].copy_from_slice(v);
            let got = st("get_var_i64", self.rt.block_on(s.get_var_i64(id)))?;
            check_eq!(got, i64::from_le_bytes(b), "variable-int", "get_var_i64 of #{} of {}", i, a);
        }
        if v.len() <= 4 {
            let mut b = [0; 4];
            b[..v.len()].copy_from_slice(v);
            let got = st("get_var_i32", self.rt.block_on(s.get_var_i32(id)))?;
            check_eq!(got, i32::from_le_bytes(b), "variable-int", "get_var_i32 of #{} of {}", i, a);
        }
        if v.len() <= 20 {
            let mut b = [0; 20];
            b[..v.len()].copy_from_slice(v);
            let got: [u8; 20] = st("get_var_array", self.rt.block_on(s.get_var_array(id)))?;
            check_eq!(got, b, "variable", "get_var_array of #{} of {}", i, a);
        }
        Ok(())
    }

    pub fn op_checkpoint(&mut self) -> R {
        self.note("checkpoint".to_string());
        st("checkpoint", self.rt.block_on(self.gs.checkpoint()))?;
        self.saved = self.now.clone();
        self.has_saved |= self.has_dirty;
        self.has_dirty = false;
        Ok(())
    }

    /// What a commit does to the model.
    pub fn committed_ok(&mut self, layer: Layer, print: State) -> R {
        check_eq!(layer.0, self.layers.len() as u64, "layer-number", "layer of a commit");
        self.layers.push(self.saved.clone());
        self.has_saved = false;
        for (i, (w, p)) in self.layers.iter().zip(&self.prints).enumerate() {
            let last = self.layers.last().unwrap();
            if w == last {
                check_eq!(print, *p, "fingerprint-content", "layers {} and {} have the same content", i, self.layers.len() - 1);
            }
            if !w.same_values(last) {
                check!(print != *p, "fingerprint-collision", "layers {} and {} differ but share a fingerprint", i, self.layers.len() - 1);
            }
        }
        self.prints.push(print);
        Ok(())
    }

    pub fn op_commit(&mut self) -> R {
        self.note("commit".to_string());
        let r = self.rt.block_on(self.gs.commit());
        if self.has_dirty {
            check!(
                matches!(r, Err(StorageError::DirtyChanges)),
                "commit-dirty",
                "committed with dirty changes: {:?}",
                r
            );
            return Ok(());
        }
        let (layer, print) = st("commit", r)?;
        self.committed_ok(layer, print)
    }

    /// Many layers, most of them with a change or none.
    fn op_burst(&mut self, g: &mut Ctx) -> R {
        g.label("many-layers");
        let n = match g.draw(3) {
            0 => 3 + g.below(20),
            1 => 60 + g.below(80),
            _ => 250 + g.below(60),
        };
        let busy = g.draw(4);
        for _ in 0..n {
            if g.draw(4) < busy {
                self.op_write(g)?;
            }
            self.op_checkpoint()?;
            self.op_commit()?;
        }
        Ok(())
    }

    pub fn op_rollback(&mut self) -> R {
        self.note("rollback".to_string());
        st("rollback", self.rt.block_on(self.gs.rollback()))?;
        self.now = self.saved.clone();
        self.has_dirty = false;
        Ok(())
    }

    fn op_rewind(&mut self, g: &mut Ctx) -> R {
        if self.layers.is_empty() || g.one_in(8) {
            return self.op_rewind_nowhere(g);
        }
        let n = self.layers.len() - 1 - g.below(self.layers.len());
        self.note(format!("rewind to {}", n));
        let r = self.rt.block_on(self.gs.rewind(Layer(n as u64)));
        if self.has_dirty {
            check!(matches!(r, Err(StorageError::DirtyChanges)), "rewind-dirty", "rewound over dirty changes");
            return Ok(());
        }
        st("rewind", r)?;
        g.label_if(n + 1 < self.layers.len(), "rewinds-dropping-layers");
        self.layers.truncate(n + 1);
        self.prints.truncate(n + 1);
        self.saved = self.layers[n].clone();
        self.now = self.saved.clone();
        self.has_saved = false;
        Ok(())
    }

    /// To a layer that was never committed: refused, and nothing changes.
    fn op_rewind_nowhere(&mut self, g: &mut Ctx) -> R {
        let n = match g.draw(4) {
            0 => u64::MAX - g.draw(2),
            1 => (1 << 63) - g.draw(3) + 1,
            _ => self.layers.len() as u64 + g.draw(3),
        };
        self.note(format!("rewind to {}, which does not exist", n));
        g.label("rewind to no layer");
        let r = catch_unwind(AssertUnwindSafe(|| self.rt.block_on(self.gs.rewind(Layer(n)))));
        crate::runner::take_last_panic();
        check!(!matches!(r, Ok(Ok(_))), "rewind-to-nowhere", "went to layer {}, which was never committed", n);
        Ok(())
    }

    /// The state is opened again from its file: what was not committed is gone.
    pub fn reopen(&mut self, new_path: Option<PathBuf>) -> R {
        if let Some(p) = new_path {
            self.path = p;
        }
        let genesis = genesis_of(&self.spec, &self.base);
        self.gs = self.rt.block_on(GlobalState::new(&uri(&self.path), genesis));
        self.saved = self.committed().clone();
        self.now = self.saved.clone();
        self.has_saved = false;
        self.has_dirty = false;
        Ok(())
    }

    fn op_reopen(&mut self, g: &mut Ctx) -> R {
        if self.memory {
            return self.op_pass(g);
        }
        let dir = self.path.parent().unwrap().to_path_buf();
        if g.flip() {
            // The files as they are, taken over while the state is still open: a killed process.
            self.note("killed and reopened".to_string());
            g.label("kill-reopen");
            let new = dir.join(format!("copy{}", self.log.len()));
            std::fs::create_dir_all(&new).expect("env: copy");
            for suffix in &["", "-wal"] {
                let from = dir.join(format!("{}{}", self.path.file_name().unwrap().to_str().unwrap(), suffix));
                let _ = std::fs::copy(&from, new.join(format!("gs.sqlite{}", suffix)));
            }
            // keep file names simple for the next copy
            let target = new.join("gs.sqlite");
            self.reopen(Some(target))
        } else {
            self.note("reopened".to_string());
            g.label("reopen");
            self.reopen(None)
        }
    }

    pub fn step(&mut self, g: &mut Ctx, w: &Weights) -> R {
        let op = g.weighted(&[
            w.write, w.create, w.read, w.checkpoint, w.commit, w.rollback, w.rewind, w.reopen, w.history,
        ]);
        match op {
            0 => self.op_write(g),
            1 => self.op_create(g),
            2 => {
                if g.one_in(8) {
                    self.op_pass(g)?;
                }
                self.op_read(g)
            }
            3 => self.op_checkpoint(),
            4 => {
                if g.one_in(150) && self.layers.len() < 100 {
                    return self.op_burst(g);
                }
                // mostly what a node does: checkpoint, then commit
                if !g.one_in(6) {
                    self.op_checkpoint()?;
                }
                self.op_commit()
            }
            5 => {
                g.label_if(self.has_dirty, "rollback-of-changes");
                self.op_rollback()
            }
            6 => {
                if self.has_dirty && !g.one_in(4) {
                    self.op_rollback()?;
                }
                self.op_rewind(g)
            }
            7 => {
                g.label_if(self.has_dirty || self.has_saved, "reopen-with-uncommitted");
                self.op_reopen(g)
            }
            _ => {
                if self.layers.is_empty() {
                    return Ok(());
                }
                let n = g.below(self.layers.len());
                let a = g.below(self.spec.addrs.len());
                g.label_if(n + 1 < self.layers.len(), "reads-of-the-past");
                self.check_layer(n, Some(a), "history")
            }
        }
    }
}

/// `None` if there is no layer but genesis (for which the query panics).
fn current_layer(rt: &Tokio, gs: &mut GlobalState) -> Option<Result<(Layer, State), StorageError>> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(gs.current_layer())));
    if r.is_err() {
        crate::runner::take_last_panic();
    }
    r.ok()
}

pub fn genesis_of(spec: &Spec, base: &World) -> GenesisConfig {
    let templates: HashMap<TemplateAddr, Template> = base
        .templates
        .iter()
        .map(|(t, h)| (spec.template_addrs[*t], spec.template(*t, h)))
        .collect();
    GenesisConfig { templates }
}

fn with_history(duo: &mut Duo, f: impl FnOnce(&mut Duo) -> R) -> R {
    f(duo).map_err(|e| Fail { msg: format!("{} after: {}", e.msg, duo.history()), sig: e.sig })
}

const MIX: Weights = Weights {
    write: 30,
    create: 12,
    read: 8,
    checkpoint: 10,
    commit: 14,
    rollback: 6,
    rewind: 4,
    reopen: 2,
    history: 4,
};

fn run_history(g: &mut Ctx, w: Weights, max: usize, full_every: usize) -> Result<(usize, usize), Fail> {
    let rt = tokio_rt();
    let (accounts, templates) = (2 + g.below(4), 1 + g.below(3));
    let mut duo = Duo::new(g, &rt, accounts, templates, 6);
    let steps = 4 + g.below(max);
    let mut commits = 0;
    let r = with_history(&mut duo, |duo| {
        for i in 0..steps {
            duo.step(g, &w)?;
            if full_every > 0 && i % full_every == full_every - 1 {
                duo.check_now("check")?;
            }
            commits = commits.max(duo.layers.len());
        }
        duo.check_now("at the end")?;
        duo.check_layers("at the end")?;
        Ok(())
    });
    let h = duo.history();
    g.describe(h);
    let used = (commits, duo.now.accounts.len());
    drop(duo);
    r.map(|_| used)
}

fn s01_case(g: &mut Ctx) -> R {
    let (commits, accounts) = run_history(g, MIX, 40, 5)?;
    g.nontrivial = commits > 0 && accounts > 0;
    Ok(())
}

fn s02_case(g: &mut Ctx) -> R {
    let w = Weights { reopen: 16, rewind: 5, history: 2, ..MIX };
    let rt = tokio_rt();
    let spec = Spec::new(g, 3, 2, 5);
    let path = g.scratch().join("gs.sqlite");
    let mut duo = Duo::with_spec(g, &rt, spec, path);
    let steps = 6 + g.below(30);
    let mut reopened_with_layers = 0;
    let r = with_history(&mut duo, |duo| {
        for _ in 0..steps {
            let before = duo.log.len();
            duo.step(g, &w)?;
            if duo.log.len() > before && duo.log.last().unwrap().contains("reopened") {
                reopened_with_layers += (!duo.layers.is_empty()) as u32;
                duo.check_now("after reopening")?;
                duo.check_layers("after reopening")?;
            }
        }
        duo.note("reopened at the end".to_string());
        duo.reopen(None)?;
        duo.check_now("after the last reopening")?;
        duo.check_layers("after the last reopening")?;
        // It goes on from where it was.
        duo.op_checkpoint()?;
        duo.op_commit()
    });
    let h = duo.history();
    g.describe(h);
    g.nontrivial = reopened_with_layers > 0;
    g.label_if(reopened_with_layers > 0, "reopened-with-layers");
    r
}

fn s05_case(g: &mut Ctx) -> R {
    let w = Weights { history: 20, rewind: 12, commit: 24, write: 36, read: 2, reopen: 1, ..MIX };
    let rt = tokio_rt();
    let (accounts, templates) = (2 + g.below(3), 1 + g.below(2));
    let mut duo = Duo::new(g, &rt, accounts, templates, 4);
    let steps = 8 + g.below(50);
    let mut deep = false;
    let r = with_history(&mut duo, |duo| {
        for _ in 0..steps {
            let before = duo.log.len();
            duo.step(g, &w)?;
            deep |= duo.layers.len() >= 3;
            if duo.log.len() > before && duo.log.last().unwrap().starts_with("rewind") {
                duo.check_now("after a rewind")?;
                duo.check_layers("after a rewind")?;
            }
        }
        duo.check_now("at the end")?;
        duo.check_layers("at the end")?;
        Ok(())
    });
    let h = duo.history();
    g.describe(h);
    g.nontrivial = deep;
    r
}

// ---------------------------------------------------------------------------------------------
// S04: fingerprints
// ---------------------------------------------------------------------------------------------

/// The writes that make up a content; each target at most once.
#[derive(Clone, Debug, PartialEq)]
enum Put {
    Balance(usize, u64),
    Counter(usize, u128),
    Var(usize, usize, Vec<u8>),
    /// Another template: the seed of its code, its length, a position and what is added to the byte there.
    Code(u8, u64, usize, usize, u8),
}

fn code_of(seed: u64, len: usize, at: usize, add: u8) -> Vec<u8> {
    let mut r = crate::pbt::Rng::new(seed);
    let mut code: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
    code[at] = code[at].wrapping_add(add);
    code
}

fn apply(rt: &Tokio, gs: &GlobalState, spec: &Spec, p: &Put) -> R {
    if let Put::Code(k, seed, len, at, add) = p {
        let code = CodeSection::new_fixed(code_of(*seed, *len, *at, *add), 0);
        let template = Template::new(code, DataSection::with_layout(Layout::Fixed(FixedLayout::default())), CtorsSection::new(vec![]));
        let mut core = template.sections().clone();
        let noncore = core.remove_noncore();
        let r = rt.block_on(TemplateStorage::create(gs.clone(), &TemplateAddr([0xE0 + *k; 20]), core, noncore));
        return st("create-template", r.map(|_| ()));
    }
    let a = match p {
        Put::Code(..) => unreachable!(),
        Put::Balance(a, _) | Put::Counter(a, _) | Put::Var(a, _, _) => *a,
    };
    let mut s = st("load", rt.block_on(AccountStorage::load(gs.clone(), &spec.addrs[a])))?;
    let t = a % spec.sizes.len();
    let r = match p {
        Put::Balance(_, b) => rt.block_on(s.set_balance(*b)),
        Put::Counter(_, c) => rt.block_on(s.set_counter(*c)),
        Put::Var(_, i, v) => rt.block_on(s.set_var_bytes(spec.firsts[t] + *i as u32, v)),
        Put::Code(..) => unreachable!(),
    };
    st("write", r)
}

fn other_value(g: &mut Ctx, p: &Put) -> Put {
    match p {
        Put::Balance(a, b) => {
            let d = 1 + g.int(63);
            Put::Balance(*a, b.wrapping_add(d))
        }
        Put::Counter(a, c) => Put::Counter(*a, c.wrapping_add(1 + u128::from(g.int(64)))),
        Put::Var(a, i, v) => {
            let mut v = v.clone();
            let at = g.below(v.len());
            v[at] ^= 1 << g.draw(8);
            Put::Var(*a, *i, v)
        }
        Put::Code(k, seed, len, at, add) => match g.draw(3) {
            0 => Put::Code(*k, *seed, len + 1 + g.below(100), *at, *add),
            // (one that differs at the end, often)
            1 if len - 1 != *at => Put::Code(*k, *seed, *len, len - 1, 1 + g.draw(255) as u8),
            _ => Put::Code(*k, *seed, *len, *at, add.wrapping_add(1 + g.draw(255) as u8)),
        },
    }
}

/// Brings a fresh state to the content `puts` by some history; the fingerprint of the last layer.
fn play(g: &mut Ctx, rt: &Tokio, spec: &Spec, names: &[String], puts: &[Put], plain: bool, log: &mut Vec<String>) -> Result<State, Fail> {
    let path = g.scratch().join("fp.sqlite");
    let mut base = World::default();
    for t in 0..spec.sizes.len() {
        base.templates.insert(t, None);
    }
    let mut gs = rt.block_on(GlobalState::new(&uri(&path), genesis_of(spec, &base)));
    // the first layer: the accounts
    for (a, name) in names.iter().enumerate() {
        let t = a % spec.sizes.len();
        if !plain && g.one_in(3) {
            // one that is replaced
            let before = gens::string(g, 10);
            let (balance, counter) = (g.int(64), gens::u128(g));
            log.push(format!("account {} was created before as {:?}", a, before));
            let r = rt.block_on(AccountStorage::create(gs.clone(), &spec.addrs[a], before, spec.template_addrs[t], balance, counter));
            st("create", r.map(|_| ()))?;
            if g.draw(3) != 0 {
                st("checkpoint", rt.block_on(gs.checkpoint()))?;
            }
            if g.flip() {
                st("checkpoint", rt.block_on(gs.checkpoint()))?;
                st("commit", rt.block_on(gs.commit()))?;
                log.push("commit".to_string());
            }
        }
        let r = rt.block_on(AccountStorage::create(gs.clone(), &spec.addrs[a], name.clone(), spec.template_addrs[t], 7, 0));
        st("create", r.map(|_| ()))?;
    }
    if !plain && g.flip() {
        st("checkpoint", rt.block_on(gs.checkpoint()))?;
        st("commit", rt.block_on(gs.commit()))?;
        log.push("accounts in a layer of their own".to_string());
    } else {
        st("checkpoint", rt.block_on(gs.checkpoint()))?;
    }
    let mut order: Vec<usize> = (0..puts.len()).collect();
    if !plain {
        for i in (1..order.len()).rev() {
            let j = i - g.below(i + 1);
            order.swap(i, j);
        }
    }
    for i in order {
        if !plain && g.draw(3) == 0 {
            // overwritten later
            let other = other_value(g, &puts[i]);
            log.push(format!("first {:?}", other));
            apply(rt, &gs, spec, &other)?;
            match g.draw(4) {
                0 => {
                    st("checkpoint", rt.block_on(gs.checkpoint()))?;
                    log.push("checkpoint".to_string());
                }
                1 => {
                    st("checkpoint", rt.block_on(gs.checkpoint()))?;
                    st("commit", rt.block_on(gs.commit()))?;
                    log.push("commit".to_string());
                }
                _ => {}
            }
        }
        apply(rt, &gs, spec, &puts[i])?;
        log.push(format!("#{}", i));
        if !plain {
            match g.draw(6) {
                0 => {
                    st("checkpoint", rt.block_on(gs.checkpoint()))?;
                    log.push("checkpoint".to_string());
                }
                1 => {
                    st("checkpoint", rt.block_on(gs.checkpoint()))?;
                    let (layer, _) = st("commit", rt.block_on(gs.commit()))?;
                    log.push("commit".to_string());
                    if g.flip() {
                        // a layer that is rewound
                        let extra = other_value(g, &puts[i]);
                        apply(rt, &gs, spec, &extra)?;
                        st("checkpoint", rt.block_on(gs.checkpoint()))?;
                        st("commit", rt.block_on(gs.commit()))?;
                        st("rewind", rt.block_on(gs.rewind(layer)))?;
                        log.push("commit-and-rewind".to_string());
                    }
                }
                2 => {
                    // changes that are rolled back
                    st("checkpoint", rt.block_on(gs.checkpoint()))?;
                    let extra = other_value(g, &puts[i]);
                    apply(rt, &gs, spec, &extra)?;
                    st("rollback", rt.block_on(gs.rollback()))?;
                    log.push("rolled-back".to_string());
                }
                _ => {}
            }
        }
    }
    st("checkpoint", rt.block_on(gs.checkpoint()))?;
    let (_, p) = st("commit", rt.block_on(gs.commit()))?;
    let (_, q) = st("current_layer", rt.block_on(gs.current_layer()))?;
    check_eq!(p, q, "current-state", "fingerprint of the current layer");
    Ok(p)
}

fn s04_case(g: &mut Ctx) -> R {
    let rt = tokio_rt();
    let (n, templates) = (1 + g.below(4), 1 + g.below(2));
    let spec = Spec::new(g, n, templates, 5);
    let names: Vec<String> = (0..n).map(|_| gens::string(g, 10)).collect();
    let mut puts = vec![];
    for a in 0..n {
        let t = a % spec.sizes.len();
        if g.flip() {
            puts.push(Put::Balance(a, g.int(64)));
        }
        if g.flip() {
            puts.push(Put::Counter(a, gens::u128(g)));
        }
        for (i, size) in spec.sizes[t].iter().enumerate() {
            if g.flip() {
                puts.push(Put::Var(a, i, g.bytes(*size as usize)));
            }
        }
    }
    for k in 0..g.below(3) {
        let len = match g.draw(4) {
            0 => 1 + g.below(20),
            1 => 4000 + g.below(30_000),
            _ => 20 + g.below(2000),
        };
        let at = if g.flip() { len - 1 } else { g.below(len) };
        puts.push(Put::Code(k as u8, g.draw(1000), len, at, 0));
    }
    let mut log = vec![];
    let plain = play(g, &rt, &spec, &names, &puts, true, &mut vec![])?;
    let other = play(g, &rt, &spec, &names, &puts, false, &mut log)?;
    g.describe(format!("{} accounts {:?}; another history: {}", n, puts, log.join(", ")));
    g.nontrivial = !puts.is_empty();
    check!(
        plain == other,
        "fingerprint-history",
        "the content {:?} has the fingerprint {:?} when written plainly and {:?} by the history {}",
        puts,
        plain,
        other,
        log.join(", ")
    );
    // one value changed, or a different account
    let mut names2 = names.clone();
    let mut puts2 = puts.clone();
    let what = if puts.is_empty() || g.one_in(5) {
        let a = g.below(n);
        names2[a].push('x');
        format!("name of {}", a)
    } else {
        let i = g.below(puts.len());
        puts2[i] = other_value(g, &puts[i]);
        // two values exchanged
        if g.one_in(3) {
            let j = g.below(puts.len());
            if let (Put::Balance(a, x), Put::Balance(b, y)) = (&puts[i], &puts[j]) {
                if a != b && x != y {
                    puts2 = puts.clone();
                    puts2[i] = Put::Balance(*a, *y);
                    puts2[j] = Put::Balance(*b, *x);
                    g.label("exchanged");
                }
            }
        }
        format!("{:?} instead of {:?}", puts2[i], puts[i])
    };
    let order = g.flip();
    let changed = play(g, &rt, &spec, &names2, &puts2, order, &mut log)?;
    check!(changed != plain, "fingerprint-collision", "contents that differ in {} share a fingerprint", what);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// A01: variables
// ---------------------------------------------------------------------------------------------

fn a01_case(g: &mut Ctx) -> R {
    let rt = tokio_rt();
    let n = 1 + g.below(3);
    let mut spec = Spec::new(g, n, n, 12);
    if g.one_in(6) {
        // a large variable, far from the start
        let big = 200 + g.below(3000) as u32;
        let at = g.below(spec.sizes[0].len() + 1);
        spec.sizes[0].insert(at, big);
        g.label("large-variable");
    }
    if g.one_in(10) {
        // far away: preceded by variables of the largest size that are not touched
        let k = 1 + g.below(3);
        for _ in 0..k {
            spec.sizes[0].insert(0, 65535);
        }
        g.label("large-offset");
    }
    let bulk = g.one_in(120);
    if bulk {
        for _ in 0..4 + g.below(26) {
            let size = 2000 + g.draw(2000) as u32;
            spec.sizes[0].push(size);
        }
        g.label("thousands-of-segments-at-once");
    }
    let path = g.scratch().join("vars.sqlite");
    let mut base = World::default();
    for t in 0..n {
        base.templates.insert(t, None);
    }
    let mut gs = rt.block_on(GlobalState::new(&uri(&path), genesis_of(&spec, &base)));
    let mut model: Vec<Vec<Vec<u8>>> = vec![];
    let mut handles = vec![];
    for a in 0..n {
        let r = rt.block_on(AccountStorage::create(gs.clone(), &spec.addrs[a], "a".to_string(), spec.template_addrs[a], 1, 1));
        handles.push(st("create", r)?);
        model.push(spec.sizes[a].iter().map(|s| vec![0; *s as usize]).collect());
    }
    let touched = |a: usize, i: usize, sizes: &Vec<Vec<u32>>| sizes[a][i] < 60000;
    let steps = if bulk { 4 } else { 3 + g.below(40) };
    let mut log = vec![];
    let mut crossing = false;
    if bulk {
        // every variable, in one layer
        for i in 0..spec.sizes[0].len() {
            if touched(0, i, &spec.sizes) {
                let v: Vec<u8> = (0..spec.sizes[0][i] as usize).map(|k| ((k + i) * 7 >> 2) as u8).collect();
                st("set_var_bytes", rt.block_on(handles[0].set_var_bytes(spec.firsts[0] + i as u32, &v)))?;
                model[0][i] = v;
            }
        }
        st("checkpoint", rt.block_on(gs.checkpoint()))?;
        st("commit", rt.block_on(gs.commit()))?;
        log.push("everything written and committed".to_string());
    }
    for step in 0..steps {
        let a = g.below(n);
        if spec.sizes[a].is_empty() {
            continue;
        }
        let i = g.below(spec.sizes[a].len());
        if !touched(a, i, &spec.sizes) {
            continue;
        }
        let size = spec.sizes[a][i] as usize;
        let offset: u32 = spec.sizes[a][..i].iter().sum();
        crossing |= size > 1 && offset as usize / 32 != (offset as usize + size - 1) / 32;
        let id = spec.firsts[a] + i as u32;
        let spare = if g.draw(4) == 0 { g.below(50) } else { 0 };
        let v = g.bytes(size + spare);
        log.push(format!("{}.{}={}", a, i, super::codec::hex(&v)));
        st("set_var_bytes", rt.block_on(handles[a].set_var_bytes(id, &v)))?;
        model[a][i] = v[..size].to_vec();
        match g.draw(8) {
            0 => st("checkpoint", rt.block_on(gs.checkpoint()))?,
            1 => {
                st("checkpoint", rt.block_on(gs.checkpoint()))?;
                st("commit", rt.block_on(gs.commit()))?;
            }
            _ => {}
        }
        if step % 4 == 3 || step + 1 == steps {
            for (b, vars) in model.iter().enumerate() {
                for (j, v) in vars.iter().enumerate() {
                    if !touched(b, j, &spec.sizes) && !g.one_in(4) {
                        continue;
                    }
                    let got = st("get_var_vec", rt.block_on(handles[b].get_var_vec(spec.firsts[b] + j as u32)))?;
                    if got != *v {
                        g.describe(format!("sizes {:?}: {}", spec.sizes, log.join(" ")));
                        return fail(
                            if (a, i) == (b, j) { "variable-value" } else { "variable-isolation" },
                            format!(
                                "variable {} of account {} reads {} instead of {} after writing variable {} of account {} (sizes {:?}; {})",
                                j, b, super::codec::hex(&got), super::codec::hex(v), i, a, spec.sizes, log.join(" ")
                            ),
                        );
                    }
                }
                let (bal, ctr) = (st("balance", rt.block_on(handles[b].balance()))?, st("counter", rt.block_on(handles[b].counter()))?);
                check!((bal, ctr) == (1, 1), "variable-metadata", "writing a variable changed the balance or counter of {}", b);
            }
        }
    }
    g.describe(format!("sizes {:?}: {}", spec.sizes, log.join(" ")));
    g.nontrivial = log.len() >= 2;
    g.label_if(crossing, "crosses-32-bytes");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// S03: crashes and I/O errors
// ---------------------------------------------------------------------------------------------

const WRITES: Weights = Weights { write: 40, create: 14, read: 0, checkpoint: 0, commit: 0, rollback: 0, rewind: 0, reopen: 0, history: 0 };

/// Every crash point of a history: the files as some prefix of the writes leaves them, with all of
/// the writes that were not synced, none of them, or some.
fn s03_crash_case(g: &mut Ctx) -> R {
    let rt = tokio_rt();
    let scratch = g.scratch();
    let live = scratch.join("live");
    std::fs::create_dir_all(&live).expect("env: live");
    let spec = Spec::new(g, 3, 2, 4);
    let rec = faults::Recording::start(&live);
    let mut duo = Duo::with_spec(g, &rt, spec, live.join("gs.sqlite"));
    // (number of recorded operations when acknowledged, layers at that time)
    let mut acks: Vec<(usize, Vec<World>, Vec<State>)> = vec![(rec.len(), vec![], vec![])];
    let rounds = 1 + g.below(4);
    for _ in 0..rounds {
        let n = 1 + g.below(6);
        for _ in 0..n {
            duo.step(g, &WRITES)?;
        }
        duo.op_checkpoint()?;
        duo.op_commit()?;
        acks.push((rec.len(), duo.layers.clone(), duo.prints.clone()));
        if g.one_in(4) {
            duo.op_rewind(g)?;
            acks.push((rec.len(), duo.layers.clone(), duo.prints.clone()));
        }
    }
    let trace = rec.stop();
    let h = duo.history();
    g.describe(format!("{}: {} file operations", h, trace.len()));
    g.nontrivial = trace.len() > 10;
    let base = duo.base.clone();
    let first = acks[0].0;
    // Every point when there are few, else a spread of them and all around the acknowledgements.
    let limit = if g.tier_thorough { 400 } else { 60 };
    let mut points: Vec<usize> = (0..=trace.len()).collect();
    if points.len() > limit {
        let step = points.len() / limit + 1;
        let off = g.below(step);
        points.retain(|p| p % step == off || acks.iter().any(|(n, _, _)| *p <= *n && *p + 4 > *n));
    }
    g.label("histories");
    let total = points.len();
    for (nth, point) in points.into_iter().enumerate() {
        let modes: &[faults::Unsynced] = &[faults::Unsynced::All, faults::Unsynced::None, faults::Unsynced::Some];
        let mode = modes[g.below(3)];
        // Paths are not used again: an earlier database may still be closing.
        if nth >= 4 {
            let _ = std::fs::remove_dir_all(scratch.join(format!("crash{}", nth - 4)));
        }
        let dir = scratch.join(format!("crash{}", nth));
        std::fs::create_dir_all(&dir).expect("env: crash dir");
        let pick = g.draw(0);
        faults::materialise(&trace[..point], &live, &dir, mode, pick);
        // What was acknowledged before the crash, and what was under way.
        let before = acks.iter().rev().find(|(n, _, _)| *n <= point);
        let after = acks.iter().find(|(n, _, _)| *n > point).or(before);
        let expected: Vec<(Vec<World>, Vec<State>)> = match before {
            Some((_, l, p)) => {
                let mut v = vec![(l.clone(), p.clone())];
                if let Some((_, l, p)) = after {
                    v.push((l.clone(), p.clone()));
                }
                v
            }
            // Before genesis was acknowledged: it is set up again.
            None => vec![(vec![], vec![])],
        };
        let path = dir.join("gs.sqlite");
        let gs = rt.block_on(GlobalState::new(&uri(&path), genesis_of(&duo.spec, &base)));
        let mut why = String::new();
        let mut matched = false;
        for (layers, prints) in expected {
            let mut probe = Duo {
                rt: &rt,
                path: path.clone(),
                gs: gs.clone(),
                spec: Spec {
                    addrs: duo.spec.addrs.clone(),
                    template_addrs: duo.spec.template_addrs.clone(),
                    firsts: duo.spec.firsts.clone(),
                    sizes: duo.spec.sizes.clone(),
                    codes: duo.spec.codes.clone(),
                },
                base: base.clone(),
                saved: layers.last().unwrap_or(&base).clone(),
                now: layers.last().unwrap_or(&base).clone(),
                layers,
                prints,
                has_saved: false,
                has_dirty: false,
                log: vec![],
                memory: false,
            };
            let r = (|| {
                if probe.layers.is_empty() {
                    if let Some(Ok((layer, _))) = current_layer(&rt, &mut probe.gs) {
                        return fail("current-layer", format!("layer {:?} after a crash before any was committed", layer));
                    }
                }
                probe.check_now("after the crash")?;
                for n in 0..probe.layers.len() {
                    probe.check_layer(n, None, "after the crash")?;
                }
                Ok(())
            })();
            match r {
                Ok(()) => {
                    matched = true;
                    // Work goes on.
                    if g.one_in(4) {
                        with_history(&mut probe, |p| {
                            for _ in 0..2 {
                                p.step(g, &WRITES)?;
                            }
                            p.op_checkpoint()?;
                            p.op_commit()?;
                            p.check_now("after going on")
                        })?;
                    }
                    break;
                }
                Err(Fail { msg, .. }) => why = format!("{}{}; ", why, msg),
            }
        }
        drop(gs);
        check!(
            matched,
            "crash-consistency",
            "a crash after {} of {} file operations ({:?} of the unsynced ones on disk; genesis done at {}) leaves a state that is neither the one before nor the one after the commit under way: {} history: {}",
            point,
            trace.len(),
            mode,
            first,
            why,
            h
        );
    }
    for _ in 0..total {
        g.label("crash-points");
    }
    Ok(())
}

/// A file operation fails during a commit; the commit is retried.
fn s03_error_case(g: &mut Ctx) -> R {
    let rt = tokio_rt();
    let scratch = g.scratch();
    let spec = Spec::new(g, 3, 2, 4);
    let mut duo = Duo::with_spec(g, &rt, spec, scratch.join("gs.sqlite"));
    let warm = g.below(3);
    for _ in 0..warm {
        for _ in 0..3 {
            duo.step(g, &WRITES)?;
        }
        duo.op_checkpoint()?;
        duo.op_commit()?;
    }
    let writes = 1 + g.below(8);
    for _ in 0..writes {
        duo.step(g, &WRITES)?;
    }
    duo.op_checkpoint()?;
    let nth = g.draw(24);
    let count = 1 + g.draw(3);
    let errno = *g.pick(&[libc::EIO, libc::ENOSPC]);
    faults::fail_from(&scratch, nth, count, errno);
    let r = rt.block_on(duo.gs.commit());
    let hit = faults::stop_failing();
    duo.note(format!("commit with {} failing operations from #{} on: {:?}", count, nth, r.as_ref().map(|(l, _)| l.0)));
    let h = duo.history();
    g.describe(h);
    g.nontrivial = hit > 0;
    g.label_if(hit > 0, "faults-hit");
    match r {
        Ok((layer, print)) => {
            g.label("commit-survived");
            with_history(&mut duo, |duo| duo.committed_ok(layer, print))?;
        }
        Err(_) => {
            g.label("commit-failed");
            check!(hit > 0, "commit-failed", "a commit failed without an I/O error");
            // Nothing of it can be seen, and nothing is lost.
            with_history(&mut duo, |duo| {
                duo.check_now("after a failed commit")?;
                for n in 0..duo.layers.len() {
                    duo.check_layer(n, None, "after a failed commit")?;
                }
                Ok(())
            })?;
            if g.flip() {
                // A killed process at this point.
                with_history(&mut duo, |duo| {
                    let crash = scratch.join(format!("kill{}", duo.log.len()));
                    std::fs::create_dir_all(&crash).expect("env: kill");
                    for s in &["", "-wal"] {
                        let _ = std::fs::copy(scratch.join(format!("gs.sqlite{}", s)), crash.join(format!("gs.sqlite{}", s)));
                    }
                    // A failed sync may still have made it to the disk: the state before or after.
                    let gs = rt.block_on(GlobalState::new(&uri(&crash.join("gs.sqlite")), genesis_of(&duo.spec, &duo.base)));
                    let before = duo.committed().clone();
                    let a = duo.check_world(&gs, &before, "killed after a failed commit");
                    let b = duo.check_world(&gs, &duo.saved, "killed after a failed commit");
                    if let (Err(e), Err(_)) = (&a, b) {
                        return fail("failed-commit-torn", e.msg.clone());
                    }
                    Ok(())
                })?;
            }
            with_history(&mut duo, |duo| duo.op_commit())?;
        }
    }
    with_history(&mut duo, |duo| {
        duo.check_now("after the retry")?;
        duo.note("reopened".to_string());
        duo.reopen(None)?;
        duo.check_now("after reopening")?;
        for n in 0..duo.layers.len() {
            duo.check_layer(n, None, "after reopening")?;
        }
        Ok(())
    })
}

const DB: &str = "each worker process runs on one CPU and uses a database file in a scratch directory";

pub fn all() -> Vec<Property> {
    vec![
        Property {
            id: "S01",
            level: "exploration",
            rule: "Histories of 4-43 operations (create templates and accounts, write balances, counters and variables, read, checkpoint, commit, rollback, rewind, reopen, reads of past layers) over 2-5 accounts and 1-3 templates with generated layouts, run against the state and a model; reads are compared during and all of the state, its layer number and its uncommitted flag every 5 operations and at the end. Non-trivial: at least one layer committed and one account present at the end.",
            assumptions: &[DB],
            suites: vec![Suite { name: "histories", quick: 8_000, thorough: 120_000, chunk: 50, case: s01_case }],
        },
        Property {
            id: "S02",
            level: "exploration",
            rule: "Histories as in S01 with frequent reopening, after dropping the state or, as after a kill, from a copy of its files; the current state and every past layer are compared with the model after each reopening, then a further layer is committed. Non-trivial: reopened with at least one committed layer.",
            assumptions: &[DB],
            suites: vec![Suite { name: "reopen", quick: 4_000, thorough: 60_000, chunk: 40, case: s02_case }],
        },
        Property {
            id: "S03",
            level: "fault_enumeration",
            rule: "crashes: a history of commits and rewinds is run while every file operation is recorded; the files are rebuilt as of every recorded operation (quick: up to about 60 points per history, all those around an acknowledgement), with all, none or some of the operations not yet synced, opened, and compared with the model before and after the operation under way. errors: one to three file operations from a generated position on fail with EIO or ENOSPC during a commit; the state must be as before, and the retry and a reopening must succeed. Non-trivial: more than 10 file operations recorded (crashes), at least one injected error hit (errors).",
            assumptions: &[DB, "a crash keeps a prefix of the file operations; those not followed by a sync of their file may be lost individually, and a write is not torn", "the mmapped WAL index is lost in a crash, as SQLite expects"],
            suites: vec![
                Suite { name: "crashes", quick: 240, thorough: 1_600, chunk: 4, case: s03_crash_case },
                Suite { name: "errors", quick: 3_000, thorough: 60_000, chunk: 50, case: s03_error_case },
            ],
        },
        Property {
            id: "S04",
            level: "exploration",
            rule: "A generated content (balances, counters, variables of 1-4 accounts) is written plainly in one layer and, in a second state, by a generated history that permutes, overwrites, checkpoints, splits into layers, rolls back and rewinds; the fingerprints must agree. A third state differs in one name or value (or two exchanged balances) and must have another fingerprint. Non-trivial: the content has at least one written value.",
            assumptions: &[DB],
            suites: vec![Suite { name: "fingerprints", quick: 4_800, thorough: 80_000, chunk: 50, case: s04_case }],
        },
        Property {
            id: "S05",
            level: "exploration",
            rule: "Histories rich in commits, rewinds and queries of past layers; after each rewind and at the end every remaining layer is read in full as of that layer and compared with the model's snapshot. Non-trivial: at least 3 layers existed at some time.",
            assumptions: &[DB],
            suites: vec![Suite { name: "past", quick: 6_400, thorough: 100_000, chunk: 40, case: s05_case }],
        },
        Property {
            id: "A01",
            level: "exploration",
            rule: "1-3 accounts with layouts of up to 14 variables of sizes clustered around 1-8, 20, 28-36, 60-70 and up to 3000 bytes (offsets up to 200 kB); 3-42 writes, some from buffers with bytes to spare, some followed by a checkpoint or commit; every fourth write and at the end all variables of all accounts are compared with a model. Non-trivial: at least 2 writes.",
            assumptions: &[DB, "variables have at least one byte"],
            suites: vec![Suite { name: "variables", quick: 4_800, thorough: 80_000, chunk: 50, case: a01_case }],
        },
    ]
}
