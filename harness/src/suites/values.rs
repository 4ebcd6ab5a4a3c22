//! Q01: queries over an account's storage. T01: the value types everything else is built of.

use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher as _};
use std::rc::Rc;

use serde_json::Value as Json;
use svm_hash::{Blake3Hasher, Hasher};
use svm_layout::{FixedLayout, RawVar};
use svm_query::query::{StorageQuery, StorageReader, StorageReq, StorageReqKind};
use svm_query::render::JsonVarRenderer;
use svm_query::schema::{Schema, Var, VarLayout, VarType};
use svm_runtime::PriceResolverRegistry;
use svm_types::{
    Address, BytesPrimitive, CtorsSection, Gas, Layer, OOGError, Section, SectionKind, Sections, State, Template, TemplateAddr, TransactionId, WasmType, WasmTypeError,
    WasmValue,
};

use super::hex;
use crate::pbt::{Ctx, Fail};
use crate::runner::{Property, Suite};
use crate::{check, check_eq, gens};

// ---------------------------------------------------------------------------------------------
// Q01
// ---------------------------------------------------------------------------------------------

struct Stored {
    bytes: Vec<u8>,
    /// What the storage returns for a variable it has another idea of.
    skewed: BTreeMap<usize, Option<Vec<u8>>>,
    asked: Vec<usize>,
}

impl StorageReader<Json, JsonVarRenderer> for Stored {
    fn read_var_raw(&mut self, req: &StorageReq, var: &Var) -> Option<Vec<u8>> {
        self.asked.push(req.var_id);
        match self.skewed.get(&var.id) {
            Some(bytes) => bytes.clone(),
            None => self.bytes.get(var.layout.offset..var.layout.offset + var.layout.length).map(|b| b.to_vec()),
        }
    }
}

/// The number that big-endian bytes hold.
fn number(bytes: &[u8], signed: bool) -> Json {
    let mut n: i128 = 0;
    for b in bytes {
        n = n * 256 + i128::from(*b);
    }
    if signed && bytes[0] >= 128 {
        n -= 1i128 << (8 * bytes.len());
    }
    if n < 0 {
        Json::from(n as i64)
    } else {
        Json::from(n as u64)
    }
}

/// Everything a variable may be rendered as. The first is what it has to be when the bytes have
/// the variable's length.
fn renderings(var: &Var, bytes: &[u8]) -> Vec<Option<Json>> {
    let len = var.layout.length;
    let exact = bytes.len() == len;
    let text = |prefix: &str, b: &[u8]| Some(Json::from(format!("{}{}", prefix, b.iter().map(|b| format!("{:02X}", b)).collect::<String>())));
    let int = |signed: bool| {
        if len == 0 || len > 8 || bytes.len() < len {
            vec![None]
        } else if exact {
            vec![Some(number(bytes, signed))]
        } else {
            vec![None, Some(number(&bytes[..len], signed))]
        }
    };
    let blob = |prefix: &str| {
        let mut all = vec![text(prefix, bytes)];
        if !exact {
            all.push(None);
            all.push(text(prefix, &bytes[..len.min(bytes.len())]));
        }
        all
    };
    match var.ty {
        VarType::Int(signed) => int(signed),
        VarType::Balance => int(false),
        VarType::Bool => match bytes {
            [b @ 0..=1] if len == 1 => vec![Some(Json::Bool(*b == 1))],
            [b @ 0..=1] => vec![None, Some(Json::Bool(*b == 1))],
            _ => vec![None],
        },
        VarType::Blob => blob(""),
        VarType::PubKey | VarType::Address => blob("0x"),
    }
}

fn query_case(g: &mut Ctx) -> Result<(), Fail> {
    let total = 12 + g.size(80);
    let bytes: Vec<u8> = match g.below(3) {
        0 => g.bytes(total),
        1 => (0..total).map(|_| g.below(2) as u8).collect(),
        _ => (0..total).map(|_| *g.pick(&[0u8, 1, 2, 127, 128, 255])).collect(),
    };
    let mut schema = Schema::new();
    let mut model: BTreeMap<usize, Var> = BTreeMap::new();
    let mut skewed = BTreeMap::new();
    for _ in 0..1 + g.below(8) {
        let id = if g.one_in(8) { g.int(64) as usize } else { g.below(6) };
        let ty = match g.below(7) {
            0 => VarType::Bool,
            1 => VarType::Int(true),
            2 => VarType::Int(false),
            3 => VarType::Blob,
            4 => VarType::Balance,
            5 => VarType::PubKey,
            _ => VarType::Address,
        };
        let length = match &ty {
            VarType::Bool if !g.one_in(6) => 1,
            VarType::Int(_) | VarType::Balance => 1 + g.below(8) + if g.one_in(8) { 8 } else { 0 },
            _ => g.below(24),
        };
        let length = if g.one_in(20) { 0 } else { length };
        // sometimes beyond the end of the storage
        let offset = if g.one_in(8) { g.below(total + 4) } else { g.below(total.saturating_sub(length) + 1) };
        if g.one_in(8) {
            let other = if g.one_in(4) {
                None
            } else {
                let n = g.below(14);
                Some(g.bytes(n))
            };
            skewed.insert(id, other);
        }
        let var = Var { id, layout: VarLayout { offset, length }, ty, name: gens::string(g, 8), desc: gens::string(g, 8) };
        schema.add_var(var.clone());
        model.insert(id, var);
    }
    for (id, var) in &model {
        check!(schema.var(*id).as_ref() == Some(var), "schema", "the schema has {:?} instead of {:?}", schema.var(*id), var);
    }
    let ids: Vec<usize> = model.keys().copied().collect();
    let mut query = StorageQuery::new();
    let mut requests = Vec::new();
    for _ in 0..g.below(10) {
        let var_id = if g.one_in(8) { g.below(9) } else { *g.pick(&ids) };
        let params = (0..g.below(2)).map(|_| gens::string(g, 5)).collect();
        requests.push(var_id);
        query.add_req(StorageReq { var_id, kind: StorageReqKind::Get, params });
    }
    let mut stored = Stored { bytes: bytes.clone(), skewed: skewed.clone(), asked: Vec::new() };
    let answers = query.run(&schema, &mut stored);
    check_eq!(answers.len(), requests.len(), "answers", "one answer per request");
    let mut rendered = 0;
    for (id, answer) in requests.iter().zip(&answers) {
        let var = match model.get(id) {
            Some(var) => var,
            None => {
                check!(answer.is_none(), "unknown", "a variable that is not in the schema renders as {:?}", answer);
                g.label("unknown variable");
                continue;
            }
        };
        let raw = match skewed.get(id) {
            Some(raw) => raw.clone(),
            None => bytes.get(var.layout.offset..var.layout.offset + var.layout.length).map(|b| b.to_vec()),
        };
        let raw = match raw {
            Some(raw) => raw,
            None => {
                check!(answer.is_none(), "absent", "a variable that the storage does not have renders as {:?}", answer);
                g.label("absent variable");
                continue;
            }
        };
        let all = renderings(var, &raw);
        check!(all.contains(answer), "rendering", "{:?} of {} bytes holding {} renders as {:?} instead of {:?}", var.ty, var.layout.length, hex(&raw), answer, all[0]);
        if raw.len() == var.layout.length && answer.is_some() {
            rendered += 1;
        } else {
            g.label("does not fit");
        }
        g.label(match var.ty {
            VarType::Bool => "bool",
            VarType::Int(true) => "signed",
            VarType::Int(false) => "unsigned",
            VarType::Balance => "balance",
            _ => "bytes",
        });
    }
    let expected: Vec<usize> = requests.iter().copied().filter(|id| model.contains_key(id)).collect();
    check!(expected.iter().all(|id| stored.asked.contains(id)), "asked", "not every requested variable was read: {:?} of {:?}", stored.asked, expected);
    g.mix(&bytes);
    g.mix(format!("{:?} {:?}", model, requests).as_bytes());
    g.describe(format!("{:?} -> {:?}", requests, answers));
    g.nontrivial = rendered > 0;
    Ok(())
}

pub fn q01() -> Property {
    Property {
        id: "Q01",
        level: "exploration",
        rule: "Schemas of 1 to 8 variables of every type (lengths 0 to 24, offsets inside and beyond the storage, ids that replace each other), storages with random and boundary bytes that sometimes return another length than the schema says or nothing, queries of 0 to 9 requests of known and unknown variables; each answer is compared with an independent rendering. Non-trivial: at least one variable whose bytes have its length was rendered.",
        assumptions: &["bytes that do not have the variable's length may be rendered as nothing or from their prefix; a balance is the big-endian number its documentation says"],
        suites: vec![Suite { name: "query", quick: 400_000, thorough: 4_000_000, chunk: 5000, case: query_case }],
    }
}

// ---------------------------------------------------------------------------------------------
// T01
// ---------------------------------------------------------------------------------------------

fn gas_case(g: &mut Ctx) -> Result<(), Fail> {
    let mut model = if g.one_in(6) { None } else { Some(g.int(64)) };
    let mut gas = match model {
        None if g.flip() => Gas::default(),
        None => Gas::new(),
        Some(n) if g.flip() => Gas::from(n),
        Some(n) => Gas::with(n),
    };
    let mut steps = vec![format!("{:?}", model)];
    let mut refused = 0;
    for _ in 0..1 + g.below(8) {
        // close to what there is, to meet the boundaries
        let n = match (g.below(3), model) {
            (0, Some(m)) => m.wrapping_add(g.below(5) as u64).wrapping_sub(2),
            (1, _) => g.below(300) as u64,
            _ => g.int(64),
        };
        check_eq!(gas.is_some(), model.is_some(), "is_some", "{:?}", steps);
        check_eq!(gas.is_none(), model.is_none(), "is_none", "{:?}", steps);
        check_eq!(gas.unwrap_or(n), model.unwrap_or(n), "unwrap_or", "{:?}", steps);
        // no limit is more than any number
        let (lt, le, gt, ge, eq) = match model {
            None => (false, false, true, true, false),
            Some(m) => (m < n, m <= n, m > n, m >= n, m == n),
        };
        check_eq!((gas < n, gas <= n, gas > n, gas >= n, gas == n, n == gas), (lt, le, gt, ge, eq, eq), "comparison", "{:?} with {}", steps, n);
        check_eq!(gas == Gas::with(n), model == Some(n), "equality", "{:?} with {}", steps, n);
        check_eq!(gas == Gas::new(), model.is_none(), "equality", "{:?} with no limit", steps);
        match g.below(4) {
            0 => {
                if model.map_or(true, |m| m.checked_add(n).is_some()) {
                    steps.push(format!("+ {}", n));
                    if g.flip() {
                        gas += n;
                    } else {
                        gas = gas + n;
                    }
                    model = model.map(|m| m + n);
                }
            }
            1 | 2 => {
                steps.push(format!("- {}", n));
                match (gas - n, model) {
                    (Ok(left), None) => {
                        check!(left.is_none(), "sub", "{:?}: a limit appeared", steps);
                        gas = left;
                    }
                    (Ok(left), Some(m)) => {
                        check!(m >= n && left.is_some() && left.unwrap() == m - n, "sub", "{:?} leaves {:?}", steps, left);
                        gas = left;
                        model = Some(m - n);
                    }
                    (Err(e), m) => {
                        check!(e == OOGError && m.map_or(false, |m| m < n), "sub", "{:?} is refused", steps);
                        refused += 1;
                    }
                }
            }
            _ => {
                steps.push(format!("^ {}", n));
                gas = gas.map(|m| m ^ n);
                model = model.map(|m| m ^ n);
            }
        }
        let held = if gas.is_some() { Some(gas.unwrap()) } else { None };
        check_eq!(held, model, "gas", "{:?}", steps);
    }
    g.mix(format!("{:?}", steps).as_bytes());
    g.label_if(refused > 0, "refused");
    g.label_if(model.is_none(), "no limit");
    g.nontrivial = model.is_some();
    g.describe(format!("{:?}", steps));
    Ok(())
}

fn std_hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn primitive<const N: usize, T: BytesPrimitive<N> + std::fmt::Debug>(g: &mut Ctx) -> Result<(), Fail> {
    let len = if g.flip() { N } else { g.below(2 * N + 2) };
    let raw = match g.below(4) {
        0 => vec![0; len],
        1 => {
            let mut raw = vec![0; len];
            if len > 0 {
                let at = g.below(len);
                raw[at] = 1 << g.below(8);
            }
            raw
        }
        _ => g.bytes(len),
    };
    check_eq!(T::N, N, "N", "size");
    let made = T::new_opt(&raw);
    check_eq!(made.is_some(), len == N, "new_opt", "{} bytes as {}", len, N);
    let text = gens::string(g, N / 2);
    if text.len() <= N {
        let mut padded = text.as_bytes().to_vec();
        padded.resize(N, 0);
        check_eq!(T::of(&text).as_slice().to_vec(), padded, "of", "{:?}", text);
    }
    let b = g.below(256) as u8;
    check_eq!(T::repeat(b).as_slice().to_vec(), vec![b; N], "repeat", "{}", b);
    check!(T::zeros().is_zeros() && T::zeros() == T::repeat(0), "zeros", "zeros");
    if let Some(t) = made {
        check!(t == T::new(&raw), "new", "{}", hex(&raw));
        check_eq!(t.as_slice(), &raw[..], "as_slice", "bytes");
        check_eq!(t.as_ref().to_vec(), raw, "as_ref", "bytes");
        check_eq!(t.iter().copied().collect::<Vec<_>>(), raw, "iter", "bytes");
        check_eq!(t.is_zeros(), raw.iter().all(|b| *b == 0), "is_zeros", "{}", hex(&raw));
        let upper: String = raw.iter().map(|b| format!("{:02X}", b)).collect();
        check_eq!(t.to_string(), upper, "to_string", "text");
        let (a, z) = (g.below(N + 1), g.below(N + 1));
        check_eq!(t.first_n(a), &raw[..a], "first_n", "{}", a);
        check_eq!(t.last_n(z), &raw[N - z..], "last_n", "{}", z);
        check_eq!(BytesPrimitive::fmt(&t, a, z), format!("{}...{}", &upper[..2 * a], &upper[2 * (N - z)..]), "fmt", "({}, {})", a, z);
        let mut other = raw.clone();
        if g.flip() {
            let at = g.below(N);
            other[at] ^= 1 << g.below(8);
        }
        let u = T::new(&other);
        check_eq!(t == u, raw == other, "equality", "{} and {}", hex(&raw), hex(&other));
        if t == u {
            check_eq!(std_hash(&t), std_hash(&u), "hash", "equal values");
        }
        g.nontrivial = true;
    }
    g.mix(&raw);
    Ok(())
}

fn bytes_case(g: &mut Ctx) -> Result<(), Fail> {
    match g.below(4) {
        0 => primitive::<20, Address>(g),
        1 => primitive::<20, TemplateAddr>(g),
        2 => primitive::<32, State>(g),
        _ => primitive::<32, TransactionId>(g),
    }?;
    // hashes: in one go, in pieces, and as the reference implementation has them
    let n = *g.pick(&[0usize, 1, 31, 32, 33, 63, 64, 65, 200, 1023, 1024, 1025, 2049]);
    let data = g.bytes(n);
    let expected = *blake3::hash(&data).as_bytes();
    check_eq!(Blake3Hasher::hash(&data), expected, "blake3", "{} bytes", n);
    let (mut pieces, mut words) = (Blake3Hasher::default(), Blake3Hasher::default());
    let mut rest = &data[..];
    while !rest.is_empty() {
        let (head, tail) = rest.split_at(1 + g.below(rest.len()));
        pieces.update(head);
        words.write(head);
        rest = tail;
    }
    let mut first = [0; 8];
    first.copy_from_slice(&expected[..8]);
    check_eq!(std::hash::Hasher::finish(&words), u64::from_be_bytes(first), "finish", "{} bytes", n);
    check_eq!(std::hash::Hasher::finish(&pieces), u64::from_be_bytes(first), "finish", "{} bytes", n);
    check_eq!(pieces.finalize(), expected, "blake3-pieces", "{} bytes", n);
    // what a number is in Wasm
    let (x, ty) = (g.int(64), g.below(4) as u8);
    match (ty, WasmType::try_from(ty)) {
        (0, Ok(t)) => {
            check!(t == WasmType::I32 && u8::from(t) == 0, "wasm-type", "{}", ty);
            let v = WasmValue::from((t, x));
            check!(v == WasmValue::I32(x as u32) && v.as_i32() == Some(x as u32) && v.as_i64().is_none() && v.ty() == t && u64::from(v) == x & 0xffff_ffff, "wasm-value", "i32 {}", x);
        }
        (1, Ok(t)) => {
            check!(t == WasmType::I64 && u8::from(t) == 1, "wasm-type", "{}", ty);
            let v = WasmValue::from((t, x));
            check!(v == WasmValue::I64(x) && v.as_i64() == Some(x) && v.as_i32().is_none() && v.ty() == t && u64::from(v) == x, "wasm-value", "i64 {}", x);
        }
        (n, Err(WasmTypeError::UnsupportedType(m))) => check!(n > 1 && m == n, "wasm-type", "{} is refused", n),
        (n, r) => check!(false, "wasm-type", "{} is {:?}", n, r),
    }
    let y = g.int(63);
    let z = x >> 1;
    check!(Layer(y) + Layer(z) == Layer(y + z) && (Layer(y) < Layer(z)) == (y < z) && u64::from(Layer(y)) == y, "layer", "{} {}", y, z);
    g.mix(&data);
    g.describe(format!("{} bytes hashed", n));
    Ok(())
}

fn kind_name(kind: SectionKind) -> &'static str {
    match kind {
        SectionKind::Header => "Header",
        SectionKind::Code => "Code",
        SectionKind::Data => "Data",
        SectionKind::Ctors => "Ctors",
        SectionKind::Schema => "Schema",
        SectionKind::Api => "Api",
        SectionKind::Deploy => "Deploy",
    }
}

const KINDS: [SectionKind; 5] = [SectionKind::Header, SectionKind::Code, SectionKind::Data, SectionKind::Ctors, SectionKind::Deploy];

fn section(g: &mut Ctx, kind: SectionKind) -> Section {
    match kind {
        SectionKind::Header => gens::header_section(g).into(),
        SectionKind::Code => gens::code_section(g).into(),
        SectionKind::Data => gens::data_section(g).into(),
        SectionKind::Deploy => gens::deploy_section(g).into(),
        _ => gens::ctors_section(g).into(),
    }
}

fn agree(sections: &Sections, model: &BTreeMap<&'static str, Section>, trace: &[String]) -> Result<(), Fail> {
    check_eq!(sections.len(), model.len(), "sections", "{:?}: number", trace);
    for kind in KINDS {
        let expected = model.get(kind_name(kind));
        check!(sections.try_get(kind) == expected, "sections", "{:?}: {} differs", trace, kind);
        check_eq!(sections.contains(kind), expected.is_some(), "sections", "{:?}: has {}", trace, kind);
        if let Some(s) = expected {
            check!(sections.get(kind) == s && s.kind() == kind, "sections", "{:?}: {} differs", trace, kind);
        }
    }
    let mut listed: Vec<_> = sections.iter().map(|s| kind_name(s.kind())).collect();
    let mut kinds: Vec<_> = sections.kinds().map(|k| kind_name(*k)).collect();
    listed.sort();
    kinds.sort();
    let names: Vec<_> = model.keys().copied().collect();
    check!(listed == names && kinds == names, "sections", "{:?}: lists {:?} and {:?}", trace, listed, kinds);
    Ok(())
}

fn collections_case(g: &mut Ctx) -> Result<(), Fail> {
    // a template's sections
    let mut trace = Vec::new();
    let mut model: BTreeMap<&'static str, Section> = BTreeMap::new();
    let mut sections = if g.flip() { Sections::default() } else { Sections::with_capacity(g.below(4)) };
    for _ in 0..1 + g.below(10) {
        let kind = *g.pick(&KINDS);
        if g.below(4) > 0 {
            let s = section(g, kind);
            trace.push(format!("insert {}", kind_name(kind)));
            sections.insert(s.clone());
            model.insert(kind_name(kind), s);
        } else {
            trace.push(format!("take {}", kind_name(kind)));
            let expected = model.remove(kind_name(kind));
            let got = if expected.is_some() && g.flip() { Some(sections.take(kind)) } else { sections.try_take(kind) };
            check!(got == expected, "take", "{:?}: took {:?}", trace, got.map(|s| s.kind()));
        }
        agree(&sections, &model, &trace)?;
    }
    if ["Code", "Ctors", "Data"].iter().all(|k| model.contains_key(k)) {
        g.nontrivial = true;
        if g.flip() {
            trace.push("remove_noncore".to_string());
            let rest = sections.remove_noncore();
            let (mut core, mut other) = (BTreeMap::new(), BTreeMap::new());
            for (k, s) in &model {
                if ["Code", "Ctors", "Data"].contains(k) {
                    core.insert(*k, s.clone());
                } else {
                    other.insert(*k, s.clone());
                }
            }
            agree(&sections, &core, &trace)?;
            agree(&rest, &other, &trace)?;
            model = core;
        }
        let mut t = Template::from_sections(sections);
        if g.flip() {
            let h = gens::header_section(g);
            t = t.with_header(Some(h.clone()));
            model.insert("Header", h.into());
        }
        if g.flip() {
            let d = gens::deploy_section(g);
            t = t.with_deploy(Some(d.clone()));
            model.insert("Deploy", d.into());
        }
        agree(t.sections(), &model, &trace)?;
        let ctors: &CtorsSection = model["Ctors"].as_ctors();
        check!(t.code() == model["Code"].as_code().code() && t.ctors() == ctors.ctors(), "template", "{:?}: code or constructors differ", trace);
        for name in ["init", "a", ""].iter().map(|s| s.to_string()).chain(ctors.ctors().iter().cloned()).chain(ctors.ctors().iter().map(|c| format!("{}x", c))) {
            check_eq!(t.is_ctor(&name), ctors.ctors().contains(&name), "is_ctor", "{:?}", name);
        }
        for kind in KINDS {
            check_eq!(t.contains(kind), model.contains_key(kind_name(kind)), "template", "{:?}: contains {}", trace, kind);
            check!(t.try_get(kind) == model.get(kind_name(kind)), "template", "{:?}: try_get {}", trace, kind);
        }
        if let Some(Section::Deploy(d)) = model.get("Deploy") {
            check!(t.template_addr() == d.template() && t.deploy_section() == d, "template", "{:?}: deploy section", trace);
        }
    }
    // a layout
    let sizes: Vec<u32> = (0..g.below(20))
        .map(|_| {
            let bits = if g.one_in(5) { 24 } else { 7 };
            g.int(bits) as u32
        })
        .collect();
    let first = if g.one_in(4) { g.int(31) as u32 } else { g.below(40) as u32 };
    let mut vars = Vec::new();
    let mut offset = 0;
    for (i, size) in sizes.iter().enumerate() {
        vars.push(RawVar::new(first + i as u32, offset, *size));
        offset += size;
    }
    let layout = if vars.is_empty() || g.flip() { FixedLayout::from_byte_sizes(first, &sizes) } else { FixedLayout::new(vars.clone()) };
    check!(layout.len() == vars.len() && layout.is_empty() == vars.is_empty(), "layout", "{} variables of {}", layout.len(), vars.len());
    check_eq!(layout.iter().collect::<Vec<_>>(), vars, "layout", "from {}: {:?}", first, sizes);
    if !vars.is_empty() {
        check!(layout.first() == first && layout.try_first() == Some(first), "layout", "first");
    }
    for v in &vars {
        check!(layout.get(v.id) == v && layout.try_get(v.id) == Some(v), "layout", "variable {} of {:?}", v.id, sizes);
    }
    // prices by version
    let mut registry = if g.flip() { PriceResolverRegistry::empty() } else { PriceResolverRegistry::default() };
    let mut resolvers: BTreeMap<u16, Rc<dyn svm_gas::PriceResolver>> = BTreeMap::new();
    for _ in 0..g.below(6) {
        let version = if g.flip() { g.below(4) as u16 } else { g.int(16) as u16 };
        let r: Rc<dyn svm_gas::PriceResolver> = Rc::new(svm_gas::resolvers::V0PriceResolver::default());
        registry.add(version, r.clone());
        resolvers.insert(version, r);
        let copy = registry.clone();
        for (v, r) in &resolvers {
            let (a, b) = (registry.get(*v), copy.get(*v));
            let same = |x: &Option<Rc<dyn svm_gas::PriceResolver>>| x.as_ref().map_or(false, |x| Rc::as_ptr(x) as *const u8 == Rc::as_ptr(r) as *const u8);
            // the resolver has no fields, so its address may be shared; that it is there has to hold
            check!(a.is_some() && b.is_some() && (std::mem::size_of_val(&**r) == 0 || same(&a) && same(&b)), "registry", "version {}", v);
        }
        for v in [0u16, 1, 2, 3, 4, 256, 65535] {
            check!(registry.get(v).is_some() || !resolvers.contains_key(&v), "registry", "version {}", v);
            if v > 0 && !resolvers.contains_key(&v) {
                check!(registry.get(v).is_none(), "registry", "version {} was never added", v);
            }
        }
    }
    g.mix(format!("{:?} {} {:?}", trace, first, sizes).as_bytes());
    g.describe(format!("{:?}; {} variables", trace, sizes.len()));
    Ok(())
}

pub fn t01() -> Property {
    Property {
        id: "T01",
        level: "exploration",
        rule: "gas: histories of up to 8 additions, subtractions and comparisons of a gas amount, boundary-biased around what it holds, against an optional number. bytes: addresses, template addresses, states and transaction ids of right and wrong lengths against byte arrays; Blake3 digests in one go and in pieces against the reference implementation; Wasm types and values; layers. collections: histories of inserting and taking the sections of a template against a map, then the accessors of the template; layouts from sizes and from variables; price resolvers by version. Non-trivial: a limited amount; the right length; all mandatory sections present.",
        assumptions: &["sums of gas that do not fit 64 bits are not generated: what they give is not documented"],
        suites: vec![
            Suite { name: "gas", quick: 400_000, thorough: 4_000_000, chunk: 5000, case: gas_case },
            Suite { name: "bytes", quick: 150_000, thorough: 1_500_000, chunk: 3000, case: bytes_case },
            Suite { name: "collections", quick: 60_000, thorough: 600_000, chunk: 1000, case: collections_case },
        ],
    }
}
