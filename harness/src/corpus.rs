//! Runs the monitors of C01/C02/C03/C05/C06/C08/C09/C10/C19 over a generated program's types.
use crate::model::{self, Body, Model, Style, Tag, Ty, C, V3};
use crate::val::{self, Dia, DIALECTS};
use crate::{canon, guarded, walk, Report, Rng};
use crate::eval::Eval;
use jsonschema::Validator;
use schemars::generate::{Contract, SchemaGenerator, SchemaSettings};
use schemars::{JsonSchema, Schema};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Ops {
    pub id: usize,
    pub rust: &'static str,
    pub into_root: fn(SchemaGenerator) -> Schema,
    pub root: fn(&mut SchemaGenerator) -> Schema,
    pub sub: fn(&mut SchemaGenerator) -> Schema,
    pub ser: fn(&mut Rng) -> Result<Value, String>,
    pub de: fn(&Value) -> Result<(), String>,
}
impl Ops {
    pub fn new<T: JsonSchema + crate::gen::Arb + serde::Serialize + serde::de::DeserializeOwned>(
        id: usize,
        rust: &'static str,
    ) -> Ops {
        Ops {
            id,
            rust,
            into_root: |g| g.into_root_schema_for::<T>(),
            root: |g| g.root_schema_for::<T>(),
            sub: |g| g.subschema_for::<T>(),
            ser: |r| serde_json::to_value(T::arb(r)).map_err(|e| e.to_string()),
            de: |v| {
                // via text, as a user would
                serde_json::from_str::<T>(&v.to_string()).map(drop).map_err(|e| e.to_string())
            },
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Cfg {
    pub dia: Dia,
    pub inline: bool,
}
/// Types that grow beyond this when inlined are not checked with `inline_subschemas`.
const INLINE_LIMIT: usize = 3000;
const INLINE_BYTES: usize = 400_000;
const COMPILE_BYTES: usize = 60_000;

/// Inlining recursive types takes space exponential in their number; is it bearable for this one?
pub fn small_inlined(m: &Model, o: &Ops) -> bool {
    inlined_bytes(m, o) <= INLINE_BYTES
}

/// Roughly (an upper bound) the size of the inlined schema.
pub fn inlined_bytes(m: &Model, o: &Ops) -> usize {
    use std::cell::RefCell;
    thread_local!(static SEEN: RefCell<BTreeMap<String, usize>> = RefCell::default());
    if let Some(b) = SEEN.with(|s| s.borrow().get(o.rust).copied()) {
        return b;
    }
    let n = m.inline_size(o.id);
    let bytes = if n > INLINE_LIMIT {
        usize::MAX
    } else {
        // no definition is larger than this (they contain default values)
        let s = Cfg { dia: Dia::D20, inline: false }.settings(C::De);
        guarded(|| {
            let mut v = (o.into_root)(s.into_generator()).to_value();
            let defs = v.as_object_mut().and_then(|m| m.remove("$defs"));
            let max = defs.as_ref().and_then(|d| d.as_object()).and_then(|d| d.values().map(|x| x.to_string().len()).max());
            n * max.unwrap_or(0).max(v.to_string().len())
        })
        .unwrap_or(0)
    };
    SEEN.with(|s| s.borrow_mut().insert(o.rust.to_string(), bytes));
    bytes
}

impl Cfg {
    pub fn all() -> Vec<Cfg> {
        DIALECTS.iter().flat_map(|d| [false, true].map(|inline| Cfg { dia: *d, inline })).collect()
    }
    pub fn settings(self, c: C) -> SchemaSettings {
        let mut s = self.dia.settings();
        s.inline_subschemas = self.inline;
        s.contract = if c == C::Ser { Contract::Serialize } else { Contract::Deserialize };
        s
    }
    pub fn name(self) -> String {
        format!("{}{}", self.dia.name(), if self.inline { "/inline" } else { "" })
    }
}

pub struct Cx<'a> {
    pub m: &'a Model,
    pub ops: &'a [Ops],
    pub rep: &'a mut Report,
    pub prog: &'a str,
    pub t0: std::time::Instant,
}

impl Cx<'_> {
    pub fn schema(&mut self, o: &Ops, s: SchemaSettings, what: &str) -> Option<Value> {
        self.rep.breadcrumb(&format!("{} {what}: schema generation", o.rust));
        match guarded(|| (o.into_root)(s.into_generator()).to_value()) {
            Ok(v) => Some(v),
            Err(e) => {
                self.violate(o, &format!("panic-generate:{what}"), &format!("schema generation panicked: {e}"), json!(null));
                None
            }
        }
    }
    /// Can this type reasonably be inlined?
    fn inlinable(&mut self, o: &Ops) -> bool {
        let ok = small_inlined(self.m, o);
        if !ok {
            self.rep.count("inlining-skipped-as-exponential");
        }
        ok
    }
    fn cfgs(&mut self, o: &Ops) -> Vec<Cfg> {
        let ok = self.inlinable(o);
        Cfg::all().into_iter().filter(|c| ok || !c.inline).collect()
    }
    pub fn violate(&mut self, o: &Ops, kind: &str, what: &str, detail: Value) {
        let sig = format!("{kind}:{}:{}", self.prog, o.rust);
        let feats = &self.m.defs[o.id].feats;
        self.rep.violation(
            &sig,
            &format!("{} {}", o.rust, what),
            json!({"program": self.prog, "type": o.rust, "feats": feats, "detail": detail}),
        );
    }
    pub fn validator(&mut self, o: &Ops, schema: &Value, cfg: Cfg, c: C) -> Option<Chk> {
        if inlined_bytes(self.m, o) > COMPILE_BYTES {
            self.rep.count("schemas-evaluated-without-compilation");
            return Some(Chk::Own(Eval::owned(schema, cfg.dia)));
        }
        match val::compile(schema, cfg.dia) {
            Ok(v) => Some(Chk::Lib(v)),
            Err(e) => {
                self.violate(
                    o,
                    &format!("uncompilable:{}:{c:?}", cfg.name()),
                    &format!("schema does not compile: {e}"),
                    schema.clone(),
                );
                None
            }
        }
    }
    /// Whether this type has had its share of time (validators can be exponential on some schemas).
    fn over(&mut self) -> bool {
        let over = self.t0.elapsed().as_secs() >= Report::scale(6, 60) as u64;
        if over {
            self.rep.count("types-cut-by-time-budget");
        }
        over
    }
    /// Words (keys and tags) of the model reachable in one step, to make mutations interesting.
    pub fn words(&self, o: &Ops) -> Vec<String> {
        let mut out = BTreeSet::new();
        let mut seen = BTreeSet::new();
        let mut todo = vec![o.id];
        fn tys(t: &Ty, todo: &mut Vec<usize>) {
            match t {
                Ty::Opt { t } | Ty::Vec { t } | Ty::Set { t } | Ty::Map { t, .. } | Ty::Array { t, .. } | Ty::Wrap { t } => tys(t, todo),
                Ty::Tuple { ts } => ts.iter().for_each(|t| tys(t, todo)),
                Ty::Ref { id } => todo.push(*id),
                _ => {}
            }
        }
        while let Some(i) = todo.pop() {
            if !seen.insert(i) || seen.len() > 6 {
                continue;
            }
            let d = &self.m.defs[i];
            for t in d.from.iter().chain(d.into.iter()) {
                tys(t, &mut todo);
            }
            let mut fs: Vec<&model::Field> = vec![];
            match &d.body {
                Body::Struct { fields, style } => {
                    fs.extend(fields);
                    let _ = style;
                }
                Body::Enum { tag, variants } => {
                    match tag {
                        Tag::Internal(t) => {
                            out.insert(t.clone());
                        }
                        Tag::Adjacent(t, k) => {
                            out.insert(t.clone());
                            out.insert(k.clone());
                        }
                        _ => {}
                    }
                    for v in variants {
                        out.insert(v.ser.clone());
                        out.insert(v.de.clone());
                        fs.extend(&v.fields);
                    }
                }
            }
            for f in fs {
                out.insert(f.ser.clone());
                out.insert(f.de.clone());
                tys(f.ty(), &mut todo);
            }
        }
        out.into_iter().collect()
    }
}

fn has_unevaluated(s: &Value) -> bool {
    let mut r = false;
    walk::walk(s, &mut |_, x| r |= x.get("unevaluatedProperties").is_some());
    r
}

pub fn main(desc: &str, ops: Vec<Ops>) {
    crate::report::hook();
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let prog = std::env::args().next().unwrap().rsplit('/').next().unwrap().to_string();
    let m = Model::parse(desc);
    let mut rep = Report::new(&prop);
    let only = std::env::var("VH_ONLY").ok();
    // deep (but finite) recursive documents need room in debug builds
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let sel: Vec<&Ops> = ops.iter().filter(|o| only.as_deref().map_or(true, |x| o.rust == x)).collect();
            for o in sel {
                let mut rng = Rng::from_env(&format!("{prog}/{}/{prop}", o.rust));
                let mut cx = Cx { m: &m, ops: &ops, rep: &mut rep, prog: &prog, t0: std::time::Instant::now() };
                cx.rep.count("types");
                for f in &m.defs[o.id].feats {
                    cx.rep.count(&format!("feature:{f}"));
                }
                match prop.as_str() {
                    "C01" => c01(&mut cx, o, &mut rng),
                    "C02" => c02(&mut cx, o, &mut rng),
                    "C03" => c03(&mut cx, o, &mut rng),
                    "C05" => c05(&mut cx, o, &mut rng),
                    "C06" => c06(&mut cx, o, &mut rng),
                    "C08" => c08(&mut cx, o, &mut rng),
                    "C09" => c09(&mut cx, o, &mut rng),
                    "C10" => c10(&mut cx, o, &mut rng),
                    "C19" => c19(&mut cx, o, &mut rng),
                    "C26" => c26(&mut cx, o, &mut rng),
                    p => panic!("corpus has no monitor for {p}"),
                }
            }
            rep
        })
        .unwrap();
    match h.join() {
        Ok(rep) => rep.finish(),
        Err(_) => std::process::exit(101),
    }
}

/// The jsonschema crate expands recursive references while compiling, which takes gigabytes for
/// some types; their schemas go to our own evaluator.
pub enum Chk {
    Lib(Validator),
    Own(Eval<'static>),
}
impl Chk {
    /// None: no verdict.
    pub fn verdict(&self, doc: &Value) -> Option<bool> {
        match self {
            Chk::Lib(v) => Some(v.is_valid(doc)),
            Chk::Own(e) => e.is_valid(doc),
        }
    }
}

fn err_text(v: &Chk, doc: &Value) -> String {
    let Chk::Lib(v) = v else { return String::new() };
    let mut s = v
        .iter_errors(doc)
        .take(2)
        .map(|e| format!("{e} (at {} by {})", e.instance_path, e.schema_path))
        .collect::<Vec<_>>()
        .join("; ");
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    s
}

fn validators(cx: &mut Cx, o: &Ops, c: C) -> Vec<(Cfg, Value, Chk)> {
    let mut out = vec![];
    for cfg in cx.cfgs(o) {
        if let Some(s) = cx.schema(o, cfg.settings(c), &format!("{}:{c:?}", cfg.name())) {
            if let Some(v) = cx.validator(o, &s, cfg, c) {
                out.push((cfg, s, v));
            }
        }
    }
    out
}

fn c01(cx: &mut Cx, o: &Ops, rng: &mut Rng) {
    let vs = validators(cx, o, C::Ser);
    let n = Report::scale(40, 250);
    let mut seen = BTreeSet::new();
    for i in 0..n {
        if cx.over() {
            break;
        }
        rng.fuel = 2 + (i % 14) as i32 * 2;
        let doc = match guarded(|| (o.ser)(rng)) {
            Ok(Ok(d)) => d,
            Ok(Err(_)) => {
                cx.rep.count("values-without-JSON-form");
                continue;
            }
            Err(e) => {
                cx.rep.inconclusive(format!("{}: serialization panicked: {e}", o.rust));
                continue;
            }
        };
        let text = canon(&doc);
        if !seen.insert(text.clone()) {
            cx.rep.count("duplicate-values");
            continue;
        }
        for (cfg, s, v) in &vs {
            cx.rep.case(&format!("{}/{}/{}", o.rust, cfg.name(), text), doc.is_object() || doc.is_array());
            if v.verdict(&doc) == Some(false) {
                cx.violate(
                    o,
                    &format!("rejects-own-output:{}", cfg.name()),
                    &format!("serialize schema rejects serialized value {doc}: {}", err_text(v, &doc)),
                    json!({"doc": doc, "cfg": cfg.name(), "schema": s}),
                );
            }
        }
        cx.rep.sample("value", || json!({"type": o.rust, "json": doc}));
    }
}

/// Candidate documents for a contract: model-generated, own output, and mutants of both.
fn candidates(cx: &mut Cx, o: &Ops, c: C, rng: &mut Rng, n: usize) -> Vec<(Value, String)> {
    let words = cx.words(o);
    let mut out: Vec<(Value, String)> = vec![];
    let mut seen = BTreeSet::new();
    for i in 0..n {
        if cx.over() {
            break;
        }
        rng.fuel = 2 + (i % 12) as i32;
        let base = if i % 4 == 0 {
            match guarded(|| (o.ser)(rng)) {
                Ok(Ok(d)) => d,
                _ => continue,
            }
        } else {
            cx.m.gen(&Ty::Ref { id: o.id }, c, rng)
        };
        if base.to_string().len() > 4000 {
            continue;
        }
        if seen.insert(canon(&base)) {
            out.push((base.clone(), "generated".into()));
        }
        for _ in 0..3 {
            let mut d = base.clone();
            let mut what = model::mutate(&mut d, &words, rng);
            if rng.chance(1, 6) {
                what = format!("{what}; {}", model::mutate(&mut d, &words, rng));
            }
            if seen.insert(canon(&d)) {
                out.push((d, what));
            }
        }
    }
    out
}

fn c02(cx: &mut Cx, o: &Ops, rng: &mut Rng) {
    let vs = validators(cx, o, C::De);
    for (doc, what) in candidates(cx, o, C::De, rng, Report::scale(40, 250)) {
        let m = cx.m.accept(&Ty::Ref { id: o.id }, &doc, C::De);
        let sd = match guarded(|| (o.de)(&doc)) {
            Ok(x) => x,
            Err(e) => {
                cx.rep.inconclusive(format!("{}: deserialization panicked: {e}", o.rust));
                continue;
            }
        };
        match (sd.is_ok(), m) {
            (true, V3::Yes) => {}
            (true, _) => {
                cx.rep.count(if m == V3::No { "serde-lenient(model says no)" } else { "undetermined-form" });
                if m == V3::No {
                    cx.rep.sample("lenient", || json!({"type": o.rust, "doc": doc, "what": what}));
                }
                continue;
            }
            (false, V3::Yes) => {
                cx.rep.count("model-accepts-serde-rejects");
                cx.rep.sample("model-disagrees", || json!({"type": o.rust, "doc": doc, "what": what, "serde": sd}));
                continue;
            }
            _ => {
                cx.rep.count("not-deserializable");
                continue;
            }
        }
        for (cfg, s, v) in &vs {
            cx.rep.case(&format!("{}/{}/{}", o.rust, cfg.name(), canon(&doc)), what != "generated" || doc.is_object());
            if v.verdict(&doc) == Some(false) {
                cx.violate(
                    o,
                    &format!("rejects-deserializable:{}", cfg.name()),
                    &format!("deserialize schema rejects deserializable {doc} ({what}): {}", err_text(v, &doc)),
                    json!({"doc": doc, "cfg": cfg.name(), "schema": s}),
                );
            }
        }
        cx.rep.sample("deserializable", || json!({"type": o.rust, "json": doc, "made_by": what}));
    }
}

fn c03(cx: &mut Cx, o: &Ops, rng: &mut Rng) {
    for c in [C::Ser, C::De] {
        let vs = validators(cx, o, c);
        for (doc, what) in candidates(cx, o, c, rng, Report::scale(30, 200)) {
            if cx.over() {
                break;
            }
            if cx.m.accept(&Ty::Ref { id: o.id }, &doc, c) != V3::No {
                continue;
            }
            if c == C::De {
                match guarded(|| (o.de)(&doc)) {
                    Ok(Err(_)) => {}
                    _ => {
                        cx.rep.count("serde-lenient");
                        continue;
                    }
                }
            }
            for (cfg, s, v) in &vs {
                // the draft-07/OpenAPI replacement of unevaluatedProperties is documented as approximate
                if matches!(cfg.dia, Dia::D7 | Dia::OA3) && cx.approx(o, c, cfg.inline) {
                    continue;
                }
                cx.rep.case(&format!("{c:?}/{}/{}/{}", o.rust, cfg.name(), canon(&doc)), true);
                if v.verdict(&doc) == Some(true) {
                    cx.violate(
                        o,
                        &format!("accepts-malformed:{}:{c:?}", cfg.name()),
                        &format!("{c:?} schema accepts malformed {doc} ({what})"),
                        json!({"doc": doc, "cfg": cfg.name(), "contract": format!("{c:?}"), "schema": s}),
                    );
                }
            }
            cx.rep.sample("malformed", || json!({"type": o.rust, "contract": format!("{c:?}"), "json": doc, "fault": what}));
        }
    }
}

impl Cx<'_> {
    /// Does the program have a type that stands for any value (so that `true` is its schema)?
    fn has_trivial(&self) -> bool {
        self.ops.iter().filter(|o| small_inlined(self.m, o)).any(|o| {
            [C::Ser, C::De].iter().any(|c| {
                let s = Cfg { dia: Dia::D20, inline: true }.settings(*c);
                guarded(|| {
                    let v = (o.into_root)(s.into_generator()).to_value();
                    v.as_object().map_or(true, |m| m.keys().all(|k| ["$schema", "title", "description"].contains(&k.as_str())))
                })
                .unwrap_or(false)
            })
        })
    }
    fn approx(&mut self, o: &Ops, c: C, inline: bool) -> bool {
        use std::cell::RefCell;
        thread_local!(static SEEN: RefCell<BTreeMap<(String, bool, bool), bool>> = RefCell::default());
        let key = (o.rust.to_string(), c == C::Ser, inline);
        if let Some(b) = SEEN.with(|s| s.borrow().get(&key).copied()) {
            return b;
        }
        let s = Cfg { dia: Dia::D20, inline }.settings(c);
        let b = guarded(|| has_unevaluated((o.into_root)(s.into_generator()).as_value())).unwrap_or(true);
        SEEN.with(|s| s.borrow_mut().insert(key, b));
        b
    }
}

fn c09(cx: &mut Cx, o: &Ops, rng: &mut Rng) {
    for c in [C::Ser, C::De] {
        let mut vs: Vec<(String, Dia, Value, Chk)> = vec![];
        for (cfg, s, v) in validators(cx, o, c) {
            vs.push((cfg.name(), cfg.dia, s, v));
        }
        // further settings that must not matter
        for (name, f) in VARIANTS {
            let mut d = [Dia::D7, Dia::D19, Dia::D20][rng.below(3)];
            if name.matches('/').count() > 2 {
                // Root transforms don't reach definitions outside the standard containers (see
                // DESIGN.md); the draft 2020-12 settings have no transforms.
                d = Dia::D20;
            }
            let cfg = Cfg { dia: d, inline: false };
            let mut st = cfg.settings(c);
            f(&mut st);
            let label = format!("{}+{name}", d.name());
            if let Some(s) = cx.schema(o, st, &label) {
                if let Some(v) = cx.validator(o, &s, cfg, c) {
                    vs.push((label, d, s, v));
                }
            }
        }
        let Some(bi) = vs.iter().position(|x| x.0 == "draft2020-12") else { continue };
        let unev = has_unevaluated(&vs[bi].2);
        for (doc, what) in candidates(cx, o, c, rng, Report::scale(20, 150)) {
            if cx.over() {
                break;
            }
            if integral_float(&doc) {
                // the validator treats 1.0 differently for "integer" and ["integer", "null"]
                continue;
            }
            let Some(base) = vs[bi].3.verdict(&doc) else { continue };
            for (name, dia, s, v) in &vs {
                cx.rep.case(&format!("{c:?}/{}/{}/{}", o.rust, name, canon(&doc)), *name != "draft2020-12");
                let Some(got) = v.verdict(&doc) else { continue };
                if got == base || (got && !base && unev && matches!(dia, Dia::D7 | Dia::OA3)) {
                    continue;
                }
                cx.violate(
                    o,
                    &format!("settings-disagree:{name}:{c:?}"),
                    &format!("draft2020-12 says {base} but {name} says {got} for {doc} ({what})"),
                    json!({"doc": doc, "base": vs[bi].2, "other": s}),
                );
            }
            cx.rep.sample(if base { "accepted" } else { "rejected" }, || json!({"type": o.rust, "json": doc}));
        }
    }
}

fn integral_float(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.is_f64() && n.as_f64().is_some_and(|x| x.fract() == 0.0),
        Value::Array(a) => a.iter().any(integral_float),
        Value::Object(o) => o.values().any(integral_float),
        _ => false,
    }
}

/// Settings that change the form only.
pub const VARIANTS: &[(&str, fn(&mut SchemaSettings))] = &[
    ("defs=/definitions", |s| s.definitions_path = "/definitions".into()),
    ("defs=#/$defs", |s| s.definitions_path = "#/$defs".into()),
    ("defs=/$defs/", |s| s.definitions_path = "/$defs/".into()),
    ("defs=/definitions/v1/types", |s| s.definitions_path = "/definitions/v1/types".into()),
    ("defs=/x-a/x-b/x-c", |s| s.definitions_path = "/x-a/x-b/x-c".into()),
    ("no-meta-schema", |s| s.meta_schema = None),
    ("untagged-titles", |s| s.untagged_enum_variant_titles = true),
];

fn c05(cx: &mut Cx, o: &Ops, _rng: &mut Rng) {
    for c in [C::Ser, C::De] {
        for cfg in cx.cfgs(o) {
            let what = format!("{}:{c:?}", cfg.name());
            let Some(s) = cx.schema(o, cfg.settings(c), &what) else { continue };
            cx.rep.case(&format!("{what}/{}", canon(&s)), s.as_object().map_or(false, |m| m.len() > 3));
            for p in crate::dialect::problems(&s, cfg.dia) {
                let k = p.split(" at ").next().unwrap_or("").to_string();
                cx.violate(o, &format!("nonconforming:{what}:{k}"), &format!("{what}: {p}"), s.clone());
            }
            cx.rep.sample("schema", || json!({"type": o.rust, "cfg": what, "schema": s}));
        }
        c05_openapi(cx, o, c);
    }
}

/// The plain OpenAPI settings: transforms of the root have to leave a conforming document too.
fn c05_openapi(cx: &mut Cx, o: &Ops, c: C) {
    let plain = |keep: bool| {
        let mut s = SchemaSettings::openapi3();
        s.contract = Cfg { dia: Dia::OA3, inline: false }.settings(c).contract;
        if !keep {
            s.transforms.clear();
        }
        s
    };
    let what = format!("openapi3-plain:{c:?}");
    let (Some(mut doc), Some(raw)) = (cx.schema(o, plain(true), &what), cx.schema(o, plain(false), &what)) else { return };
    let defs = doc.pointer_mut("/components/schemas").map(Value::take).unwrap_or(json!({}));
    doc.as_object_mut().map(|m| m.remove("components"));
    cx.rep.case(&format!("{what}/{}", canon(&doc)), doc.as_object().map_or(false, |m| m.len() > 3));
    for p in crate::dialect::problems(&doc, Dia::OA3) {
        let k = p.split(" at ").next().unwrap_or("").to_string();
        cx.violate(o, &format!("nonconforming:{what}:{k}"), &format!("{what}: {p}"), doc.clone());
    }
    for (name, d) in defs.as_object().into_iter().flatten() {
        let mut ps = vec![];
        crate::dialect::forms(d, Dia::OA3, &mut ps);
        cx.rep.case(&format!("{what}/{name}/{}", canon(d)), true);
        if ps.is_empty() {
            continue;
        }
        if raw.pointer(&format!("/components/schemas/{}", walk::esc(name))) == Some(d) {
            // known: transforms don't descend into `components`, so definitions stay as generated
            cx.rep.count("openapi3-definitions-left-untransformed");
            cx.rep.violation(
                "openapi3-root-definitions-untransformed",
                &format!("{}: {what}: definition {name} is not transformed: {}", o.rust, ps[0]),
                json!({"type": o.rust, "definition": d}),
            );
        } else {
            let k = ps[0].split(" at ").next().unwrap_or("").to_string();
            cx.violate(o, &format!("nonconforming:{what}:definition:{k}"), &format!("{what}: definition {name}: {}", ps[0]), d.clone());
        }
    }
}

fn c06(cx: &mut Cx, o: &Ops, rng: &mut Rng) {
    // through every root entry point and definitions path
    for c in [C::Ser, C::De] {
        for cfg in cx.cfgs(o) {
            let what = format!("{}:{c:?}", cfg.name());
            let Some(s) = cx.schema(o, cfg.settings(c), &what) else { continue };
            check_refs(cx, o, &s, &what, default_ptr(cfg.dia));
        }
        for path in ["/$defs", "#/$defs", "/$defs/", "/definitions/v1/types", "/a b/c~1d".replace(' ', "_").as_str(), "/x", "/x/", "/A/B/C/D"] {
            let mut st = Cfg { dia: *rng.pick(&[Dia::D7, Dia::D19, Dia::D20]), inline: false }.settings(c);
            st.definitions_path = path.to_string().into();
            let what = format!("defs={path}:{c:?}");
            let Some(s) = cx.schema(o, st, &what) else { continue };
            let ptr = path.trim_start_matches('#').trim_end_matches('/').to_string();
            check_refs(cx, o, &s, &what, &ptr);
        }
        // subschemas of several types from one generator: definitions via the accessors
        let mut cfg = *rng.pick(&Cfg::all());
        let picks: Vec<&Ops> = (0..3).map(|_| &cx.ops[rng.below(cx.ops.len())]).chain([o]).collect();
        if cfg.inline && !picks.iter().all(|p| cx.inlinable(p)) {
            cfg.inline = false;
        }
        let mut g = cfg.settings(c).into_generator();
        let subs: Vec<(usize, Value)> = match guarded(|| picks.iter().map(|p| (p.id, (p.sub)(&mut g).to_value())).collect()) {
            Ok(v) => v,
            Err(e) => {
                cx.violate(o, "panic-subschema", &format!("subschema_for panicked: {e}"), json!(null));
                continue;
            }
        };
        let a = canon(&json!(g.definitions()));
        let b = {
            let m = g.definitions_mut();
            canon(&json!(m))
        };
        let with = guarded(|| (picks[0].root)(&mut g.clone()).to_value());
        let taken_raw = g.take_definitions(false);
        let t = canon(&json!(taken_raw));
        if a != b || a != t {
            cx.violate(o, "definitions-accessors-differ", "definitions(), definitions_mut() and take_definitions(false) differ", json!([a, b, t]));
        }
        if !g.definitions().is_empty() {
            cx.violate(o, "take-leaves-definitions", "take_definitions left definitions behind", json!(g.definitions()));
        }
        let ptr = default_ptr(cfg.dia);
        let mut doc = json!({"allOf": subs.iter().map(|x| &x.1).collect::<Vec<_>>()});
        let toks: Vec<String> = ptr.split('/').skip(1).map(String::from).collect();
        let mut slot = &mut doc;
        for t in &toks {
            slot = slot.as_object_mut().unwrap().entry(t.clone()).or_insert(json!({}));
        }
        *slot = Value::Object(taken_raw);
        check_refs(cx, o, &doc, &format!("subschemas:{}:{c:?}", cfg.name()), ptr);
        if let Ok(s) = with {
            check_refs(cx, o, &s, &format!("root-after-subschemas:{}:{c:?}", cfg.name()), ptr);
        }
    }
}

pub fn default_ptr(d: Dia) -> &'static str {
    match d {
        Dia::D7 => "/definitions",
        Dia::D19 | Dia::D20 => "/$defs",
        Dia::OA3 => "/components/schemas",
    }
}

fn check_refs(cx: &mut Cx, o: &Ops, s: &Value, what: &str, ptr: &str) {
    let (n, ps) = crate::dialect::ref_problems(s, ptr);
    let ps: Vec<_> = ps.into_iter().filter(|p| !(p.ends_with("resolves to true") && cx.has_trivial())).collect();
    cx.rep.case(&format!("{what}/{}", canon(s)), n > 0);
    cx.rep.add("references", n as u64);
    for p in ps {
        cx.violate(o, &format!("bad-ref:{what}"), &format!("{what}: {p}"), s.clone());
    }
    if let Some(r) = s.pointer("/allOf").is_none().then_some(()).and_then(|_| s.pointer(ptr)) {
        if r.as_object().map_or(true, |m| m.is_empty()) {
            cx.violate(o, &format!("empty-defs:{what}"), "definitions container is empty or not an object", s.clone());
        }
    }
    cx.rep.sample("refs", || json!({"type": o.rust, "cfg": what, "references": n}));
}

/// Recursive types: generation terminates, the document is finite, and it accepts exactly what a
/// level-by-level reading of the type accepts (model verdicts on deep documents).
fn c08(cx: &mut Cx, o: &Ops, rng: &mut Rng) {
    if !cx.m.is_recursive(o.id) {
        cx.rep.count("non-recursive");
        return;
    }
    for c in [C::Ser, C::De] {
        let vs = validators(cx, o, c);
        for (_, s, _) in &vs {
            let mut n = 0usize;
            walk::walk(s, &mut |_, _| n += 1);
            cx.rep.add("schema-nodes", n as u64);
        }
        let ty = Ty::Ref { id: o.id };
        let words = cx.words(o);
        for i in 0..Report::scale(60, 400) {
            if cx.over() {
                break;
            }
            rng.fuel = 10 + (i % 10) as i32 * 6;
            let mut doc = if i % 2 == 0 && c == C::Ser {
                match guarded(|| (o.ser)(rng)) {
                    Ok(Ok(d)) => d,
                    _ => continue,
                }
            } else {
                cx.m.gen(&ty, c, rng)
            };
            if doc.to_string().len() > 20000 {
                continue;
            }
            if i % 3 == 2 {
                model::mutate(&mut doc, &words, rng);
            }
            let m = cx.m.accept(&ty, &doc, c);
            let sd = guarded(|| (o.de)(&doc).is_ok()).unwrap_or(false);
            let want = match (m, c) {
                (V3::Yes, C::Ser) => true,
                (V3::No, C::Ser) => false,
                (V3::Yes, C::De) if sd => true,
                (V3::No, C::De) if !sd => false,
                _ => continue,
            };
            let depth = depth(&doc);
            cx.rep.count(&format!("doc-depth-{}", depth.min(12)));
            for (cfg, s, v) in &vs {
                if !want && matches!(cfg.dia, Dia::D7 | Dia::OA3) && cx.approx(o, c, cfg.inline) {
                    continue;
                }
                cx.rep.case(&format!("{c:?}/{}/{}/{}", o.rust, cfg.name(), canon(&doc)), depth > 2);
                if v.verdict(&doc) == Some(!want) {
                    cx.violate(
                        o,
                        &format!("recursive-meaning:{}:{c:?}", cfg.name()),
                        &format!("{c:?} schema of recursive type says {} for {doc}: {}", !want, err_text(v, &doc)),
                        json!({"doc": doc, "schema": s}),
                    );
                }
            }
            cx.rep.sample("recursive-doc", || json!({"type": o.rust, "json": doc, "accept": want}));
        }
    }
}

/// Types with flattened parts accept exactly what the members written in place would (the model
/// merges members by the definition of flattening; serde agrees).
fn c26(cx: &mut Cx, o: &Ops, rng: &mut Rng) {
    let d = &cx.m.defs[o.id];
    if !d.feats.iter().any(|f| f == "flatten" || f == "variant-flatten") {
        cx.rep.count("no-flattened-part");
        return;
    }
    for c in [C::Ser, C::De] {
        let vs = validators(cx, o, c);
        let ty = Ty::Ref { id: o.id };
        for (doc, what) in candidates(cx, o, c, rng, Report::scale(30, 200)) {
            if cx.over() {
                break;
            }
            let m = cx.m.accept(&ty, &doc, c);
            let sd = guarded(|| (o.de)(&doc).is_ok()).unwrap_or(false);
            let want = match (m, c) {
                (V3::Yes, C::Ser) => true,
                (V3::No, C::Ser) => false,
                (V3::Yes, C::De) if sd => true,
                (V3::No, C::De) if !sd => false,
                _ => continue,
            };
            for (cfg, s, v) in &vs {
                if !want && matches!(cfg.dia, Dia::D7 | Dia::OA3) && cx.approx(o, c, cfg.inline) {
                    continue;
                }
                cx.rep.case(&format!("{c:?}/{}/{}/{}", o.rust, cfg.name(), canon(&doc)), doc.as_object().map_or(false, |m| m.len() > 1));
                cx.rep.count(if want { "documents-to-accept" } else { "documents-to-reject" });
                if v.verdict(&doc) == Some(!want) {
                    cx.violate(
                        o,
                        &format!("flatten-meaning:{}:{c:?}", cfg.name()),
                        &format!("{c:?} schema of flattening type says {} for {doc} ({what}): {}", !want, err_text(v, &doc)),
                        json!({"doc": doc, "schema": s}),
                    );
                }
            }
            cx.rep.sample("flattened-doc", || json!({"type": o.rust, "json": doc, "accept": want}));
        }
    }
}

fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

impl Model {
    /// How many types are written out when this one is inlined (inlining recursive types takes time
    /// exponential in their number); counted up to `INLINE_LIMIT`.
    fn inline_size(&self, id: usize) -> usize {
        // a flattened type is not "being generated", so it is written out once more if it recurs
        fn go(m: &Model, i: usize, flat: bool, stack: &mut Vec<usize>, n: &mut usize) {
            *n += 1;
            if *n > INLINE_LIMIT || stack.contains(&i) {
                return;
            }
            if !flat {
                stack.push(i);
            }
            for (j, f) in m.edges_flat(i) {
                go(m, j, f, stack, n);
            }
            if !flat {
                stack.pop();
            }
        }
        let mut n = 0;
        go(self, id, false, &mut vec![], &mut n);
        n
    }
    fn edges(&self, i: usize) -> Vec<usize> {
        self.edges_flat(i).into_iter().map(|e| e.0).collect()
    }
    fn edges_flat(&self, i: usize) -> Vec<(usize, bool)> {
        fn tys(t: &Ty, out: &mut Vec<usize>) {
            match t {
                Ty::Opt { t } | Ty::Vec { t } | Ty::Set { t } | Ty::Map { t, .. } | Ty::Array { t, .. } | Ty::Wrap { t } => tys(t, out),
                Ty::Tuple { ts } => ts.iter().for_each(|t| tys(t, out)),
                Ty::Ref { id } => out.push(*id),
                _ => {}
            }
        }
        let d = &self.defs[i];
        let mut out = vec![];
        let mut add = |t: &Ty, flat: bool| {
            let mut v = vec![];
            tys(t, &mut v);
            out.extend(v.into_iter().map(|j| (j, flat)));
        };
        for t in d.from.iter().chain(d.into.iter()) {
            add(t, false);
        }
        match &d.body {
            Body::Struct { fields, .. } => fields.iter().for_each(|f| add(f.ty(), f.flatten)),
            Body::Enum { tag, variants } => variants.iter().for_each(|v| {
                // so is the content of an internally tagged newtype variant
                let inner = matches!(tag, Tag::Internal(_)) && v.fields.len() == 1;
                v.fields.iter().for_each(|f| add(f.ty(), f.flatten || inner))
            }),
        }
        out
    }
    pub fn is_recursive(&self, id: usize) -> bool {
        // reaches a cycle
        fn go(m: &Model, i: usize, stack: &mut Vec<usize>, done: &mut BTreeSet<usize>) -> bool {
            if stack.contains(&i) {
                return true;
            }
            if !done.insert(i) {
                return false;
            }
            stack.push(i);
            let r = m.edges(i).into_iter().any(|j| go(m, j, stack, done));
            stack.pop();
            r
        }
        go(self, id, &mut vec![], &mut BTreeSet::new())
    }
}

/// Are two documents the same up to the names of definitions, extra definitions and whether a
/// recursion into the root type goes to `#` or to a definition of that type? Returns the first
/// difference. (Bisimulation over the two reference graphs.)
pub fn doc_difference(a: &Value, b: &Value, ptr: &str) -> Option<String> {
    let toks: Vec<String> = ptr.split('/').skip(1).map(|t| t.replace("~1", "/").replace("~0", "~")).collect();
    let strip = |v: &Value| {
        let mut v = v.clone();
        fn cut(v: &mut Value, toks: &[String]) {
            let Some(o) = v.as_object_mut() else { return };
            if toks.len() == 1 {
                o.remove(&toks[0]);
            } else if let Some(x) = o.get_mut(&toks[0]) {
                cut(x, &toks[1..]);
                if x.as_object().map_or(false, |m| m.is_empty()) {
                    o.remove(&toks[0]);
                }
            }
        }
        cut(&mut v, &toks);
        v
    };
    let (ra, rb) = (strip(a), strip(b));
    let mut todo: Vec<(String, String)> = vec![("#".into(), "#".into())];
    let mut seen: BTreeSet<(String, String)> = todo.iter().cloned().collect();
    while let Some((pa, pb)) = todo.pop() {
        let ta = if pa == "#" { Some(&ra) } else { walk::resolve(a, &pa) };
        let tb = if pb == "#" { Some(&rb) } else { walk::resolve(b, &pb) };
        let (Some(ta), Some(tb)) = (ta, tb) else {
            return Some(format!("dangling {pa} / {pb}"));
        };
        let (mut ta, mut tb) = (ta.clone(), tb.clone());
        if (pa == "#") != (pb == "#") {
            for t in [&mut ta, &mut tb] {
                if let Some(o) = t.as_object_mut() {
                    o.remove("title");
                    o.remove("$schema");
                    // (draft-07 wraps a reference next to other keywords in `allOf`)
                    if let (1, Some([x])) = (o.len(), o.get("allOf").and_then(Value::as_array).map(Vec::as_slice)) {
                        *t = x.clone();
                    }
                }
            }
        }
        if let Some(d) = cmp(&ta, &tb, &pa, &mut todo, &mut seen) {
            return Some(d);
        }
    }
    return None;
    fn cmp(a: &Value, b: &Value, at: &str, todo: &mut Vec<(String, String)>, seen: &mut BTreeSet<(String, String)>) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                    let here = format!("{at}/{k}");
                    match (x.get(k), y.get(k)) {
                        (Some(Value::String(p)), Some(Value::String(q))) if k == "$ref" && p.starts_with('#') && q.starts_with('#') => {
                            let e = (p.clone(), q.clone());
                            if seen.insert(e.clone()) {
                                todo.push(e);
                            }
                        }
                        (Some(Value::Array(p)), Some(Value::Array(q))) if k == "required" => {
                            let f = |v: &Vec<Value>| v.iter().map(canon).collect::<BTreeSet<_>>();
                            if f(p) != f(q) {
                                return Some(format!("{here}: {} != {}", x[k], y[k]));
                            }
                        }
                        (Some(p), Some(q)) => {
                            if let Some(d) = cmp(p, q, &here, todo, seen) {
                                return Some(d);
                            }
                        }
                        _ => return Some(format!("{here} is only in one of the documents")),
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return Some(format!("{at}: lengths differ"));
                }
                x.iter().zip(y).enumerate().find_map(|(i, (p, q))| cmp(p, q, &format!("{at}/{i}"), todo, seen))
            }
            _ => (a != b).then(|| format!("{at}: {a} != {b}")),
        }
    }
}

fn c10(cx: &mut Cx, o: &Ops, rng: &mut Rng) {
    for c in [C::Ser, C::De] {
        let cfg = *rng.pick(&cx.cfgs(o));
        let ptr = default_ptr(cfg.dia);
        let what = format!("{}:{c:?}", cfg.name());
        let Some(base) = cx.schema(o, cfg.settings(c), &what) else { continue };
        let text = serde_json::to_string(&base).unwrap();
        let same = |cx: &mut Cx, label: &str, other: Result<Value, String>| match other {
            Ok(v) => {
                cx.rep.case(&format!("{label}/{what}/{}", canon(&v)), base.as_object().map_or(false, |x| x.len() > 3));
                let t = serde_json::to_string(&v).unwrap();
                if t != text {
                    cx.violate(o, &format!("differs:{label}:{what}"), &format!("{what}: {label} gives another document"), json!({"base": base, "other": v}));
                }
            }
            Err(e) => cx.violate(o, &format!("panic:{label}:{what}"), &format!("{label} panicked: {e}"), json!(null)),
        };
        same(cx, "fresh generator", guarded(|| (o.into_root)(cfg.settings(c).into_generator()).to_value()));
        same(cx, "root_schema_for", guarded(|| (o.root)(&mut cfg.settings(c).into_generator()).to_value()));
        same(cx, "cloned generator", guarded(|| (o.into_root)(cfg.settings(c).into_generator().clone()).to_value()));
        same(cx, "repeated call", guarded(|| {
            let mut g = cfg.settings(c).into_generator();
            let _ = (o.root)(&mut g);
            (o.root)(&mut g).to_value()
        }));
        same(cx, "consuming after borrowing", guarded(|| {
            let mut g = cfg.settings(c).into_generator();
            let _ = (o.root)(&mut g);
            (o.into_root)(g).to_value()
        }));
        let f = o.into_root;
        let th = std::thread::Builder::new().stack_size(64 << 20).spawn(move || f(cfg.settings(c).into_generator()).to_value()).unwrap().join();
        same(cx, "other thread", th.map_err(|_| "panic".to_string()));
        same(cx, "generator reused after taking definitions", guarded(|| {
            let mut g = cfg.settings(c).into_generator();
            let _ = (o.root)(&mut g);
            g.take_definitions(rng.chance(1, 2));
            (o.root)(&mut g).to_value()
        }));
        // histories with other types before: equal up to names and extra definitions
        let others: Vec<&Ops> = cx.ops.iter().filter(|p| !cfg.inline || small_inlined(cx.m, p)).collect();
        for k in 0..Report::scale(3, 12) {
            let mut log = vec![];
            let got = guarded(|| {
                let mut g = cfg.settings(c).into_generator();
                for _ in 0..rng.range(1, 4) {
                    let p = others[rng.below(others.len())];
                    let x = rng.below(3);
                    log.push(format!("{x}:{}", p.rust));
                    match x {
                        0 => drop((p.sub)(&mut g)),
                        1 => drop((p.root)(&mut g)),
                        _ => {
                            g = g.clone();
                            drop((p.sub)(&mut g))
                        }
                    }
                }
                if k % 2 == 0 { (o.root)(&mut g).to_value() } else { (o.into_root)(g).to_value() }
            });
            match got {
                Ok(v) => {
                    cx.rep.case(&format!("{log:?}/{what}/{}", o.rust), log.len() > 1);
                    let d = doc_difference(&base, &v, ptr);
                    let d = if d.is_some() && cfg.inline && cx.m.is_recursive(o.id) {
                        // where a recursion is cut when inlining may depend on existing
                        // definitions; the meaning may not
                        let vs = [&base, &v].map(|s| val::compile(s, cfg.dia));
                        let docs = candidates(cx, o, c, rng, 20);
                        cx.rep.count("compared-by-meaning");
                        match vs {
                            [Ok(a), Ok(b)] => docs.iter().find(|(x, _)| a.is_valid(x) != b.is_valid(x)).map(|x| format!("verdicts differ on {}", x.0)),
                            _ => Some("does not compile".into()),
                        }
                    } else {
                        d
                    };
                    if let Some(d) = d {
                        cx.violate(
                            o,
                            &format!("history:{what}"),
                            &format!("{what}: document depends on history {log:?}: {d}"),
                            json!({"fresh": base, "after": v}),
                        );
                    }
                }
                Err(e) => cx.violate(o, &format!("panic:history:{what}"), &format!("panicked after {log:?}: {e}"), json!(null)),
            }
            cx.rep.sample("history", || json!({"type": o.rust, "history": log}));
        }
    }
}

/// Names, variants and required lists.
fn c19(cx: &mut Cx, o: &Ops, _rng: &mut Rng) {
    for c in [C::Ser, C::De] {
        for inline in [false, true] {
            let cfg = Cfg { dia: Dia::D20, inline };
            let what = format!("{}:{c:?}", cfg.name());
            if inline && !cx.inlinable(o) {
                continue;
            }
            let Some(s) = cx.schema(o, cfg.settings(c), &what) else { continue };
            let mut errs = vec![];
            let mut seen = BTreeSet::new();
            let mut n = 0;
            shape_def(cx.m, o.id, &s, &s, c, "", &mut errs, &mut seen, &mut n, inline);
            cx.rep.case(&format!("{what}/{}", o.rust), n > 0);
            cx.rep.add("members-checked", n as u64);
            for e in errs {
                cx.violate(o, &format!("shape:{what}"), &format!("{what}: {e}"), s.clone());
            }
            cx.rep.sample("shape", || json!({"type": o.rust, "cfg": what, "members": n}));
        }
    }
}

/// Follows references and single-member combinators added for metadata.
fn deref<'a>(root: &'a Value, s: &'a Value) -> &'a Value {
    let mut s = s;
    for _ in 0..20 {
        if let Some(r) = s.get("$ref").and_then(Value::as_str) {
            if s.get("properties").is_some() {
                return s;
            }
            match walk::resolve(root, r) {
                Some(t) => s = t,
                None => return s,
            }
        } else {
            break;
        }
    }
    s
}

/// Checks the schema `s` of definition `id` against the descriptor; collects mismatches.
#[allow(clippy::too_many_arguments)]
fn shape_def(m: &Model, id: usize, root: &Value, s: &Value, c: C, path: &str, errs: &mut Vec<String>, seen: &mut BTreeSet<usize>, n: &mut usize, inline: bool) {
    if !seen.insert(id) {
        return;
    }
    let d = &m.defs[id];
    let s = deref(root, s);
    if let Some(t) = if c == C::De { &d.from } else { &d.into } {
        return shape_ty(m, t, root, s, c, &format!("{path}<conv>"), errs, seen, n, inline);
    }
    match &d.body {
        Body::Struct { style, fields } => {
            if d.transparent {
                return shape_ty(m, Model::transparent_field(fields, c).ty(), root, s, c, path, errs, seen, n, inline);
            }
            match style {
                Style::Named => shape_fields(m, fields, d.default, root, s, c, &[], path, errs, seen, n, inline),
                Style::Newtype => shape_ty(m, fields[0].ty(), root, s, c, path, errs, seen, n, inline),
                Style::Tuple => shape_tuple(m, fields, root, s, c, path, errs, seen, n, inline),
                Style::Unit => {
                    *n += 1;
                    if s.get("type") != Some(&json!("null")) {
                        errs.push(format!("{path}: unit struct is {s}"));
                    }
                }
            }
        }
        Body::Enum { tag, variants } => {
            // multiset of tag names listed by the schema
            let alts: Vec<&Value> = match s.get("oneOf").or_else(|| s.get("anyOf")).and_then(Value::as_array) {
                Some(a) => a.iter().collect(),
                None => vec![s],
            };
            let want: BTreeMap<&str, &model::Variant> =
                variants.iter().filter(|v| !v.skipped(c) && !v.untagged && *tag != Tag::Untagged).map(|v| (v.name(c), v)).collect();
            let n_untagged = variants.iter().filter(|v| !v.skipped(c) && (v.untagged || *tag == Tag::Untagged)).count();
            let mut found: BTreeMap<String, usize> = BTreeMap::new();
            let mut rest = 0;
            if variants.iter().all(|v| v.skipped(c)) {
                return;
            }
            let tagged_alts = alts.len().saturating_sub(n_untagged);
            for (i, a) in alts.iter().enumerate() {
                if i >= tagged_alts {
                    rest += 1;
                    continue;
                }
                match tag {
                    Tag::External => {
                        if let Some(e) = a.get("enum").and_then(Value::as_array) {
                            for x in e {
                                *found.entry(x.as_str().unwrap_or("?").into()).or_default() += 1;
                                *n += 1;
                                if want.get(x.as_str().unwrap_or("?")).map_or(false, |v| v.style != Style::Unit) {
                                    errs.push(format!("{path}: {x} listed as unit variant"));
                                }
                            }
                            if a.get("type") != Some(&json!("string")) {
                                errs.push(format!("{path}: enum without string type"));
                            }
                        } else if let Some(k) = a.get("const").and_then(Value::as_str) {
                            *found.entry(k.into()).or_default() += 1;
                            *n += 1;
                        } else if let Some(p) = a.get("properties").and_then(Value::as_object) {
                            for (k, x) in p {
                                *found.entry(k.clone()).or_default() += 1;
                                if let Some(v) = want.get(k.as_str()) {
                                    shape_variant(m, v, root, x, c, &[], &format!("{path}/{k}"), errs, seen, n, inline);
                                }
                                if a.get("required") != Some(&json!([k])) || a.get("additionalProperties") != Some(&json!(false)) {
                                    errs.push(format!("{path}/{k}: variant object isn't exactly one required key: {a}"));
                                }
                            }
                        } else {
                            errs.push(format!("{path}: unrecognised alternative {a}"));
                        }
                    }
                    Tag::Internal(t) | Tag::Adjacent(t, _) => {
                        let k = a.pointer(&format!("/properties/{}/const", walk::esc(t))).and_then(Value::as_str);
                        let Some(k) = k else {
                            errs.push(format!("{path}: alternative without tag {t:?}: {a}"));
                            continue;
                        };
                        *found.entry(k.into()).or_default() += 1;
                        let req: BTreeSet<&str> = strs(a.get("required"));
                        if !req.contains(t.as_str()) {
                            errs.push(format!("{path}/{k}: tag not required"));
                        }
                        if let Some(v) = want.get(k) {
                            match tag {
                                Tag::Internal(_) => {
                                    if v.style != Style::Unit {
                                        shape_variant(m, v, root, a, c, &[t.as_str()], &format!("{path}/{k}"), errs, seen, n, inline)
                                    }
                                }
                                Tag::Adjacent(_, k2) => {
                                    let x = a.pointer(&format!("/properties/{}", walk::esc(k2)));
                                    let np = a.get("properties").and_then(Value::as_object).map_or(0, |p| p.len());
                                    match (v.style == Style::Unit, x) {
                                        (true, None) if np == 1 => {}
                                        (false, Some(x)) if np == 2 => {
                                            // `()` also stands for a skipped field, which may have been an Option
                                            let unit = matches!(v.fields.first().map(|f| f.ty()), Some(Ty::Prim { name }) if name == "()");
                                            let opt = v.style == Style::Newtype && (unit || m.missing_ok(v.fields[0].ty()));
                                            if !opt && !req.contains(k2.as_str()) {
                                                errs.push(format!("{path}/{k}: content not required"));
                                            }
                                            if c == C::Ser && !req.contains(k2.as_str()) {
                                                errs.push(format!("{path}/{k}: content not required"));
                                            }
                                            shape_variant(m, v, root, x, c, &[], &format!("{path}/{k}"), errs, seen, n, inline)
                                        }
                                        _ => errs.push(format!("{path}/{k}: members differ: {a}")),
                                    }
                                }
                                _ => {}
                            }
                        }
                        *n += 1;
                    }
                    Tag::Untagged => {}
                }
            }
            let got: BTreeMap<&str, usize> = found.iter().map(|(k, v)| (k.as_str(), *v)).collect();
            let exp: BTreeMap<&str, usize> = want.keys().map(|k| (*k, 1)).collect();
            if got != exp {
                errs.push(format!("{path}: variants {got:?} instead of {exp:?}"));
            }
            if rest != n_untagged {
                errs.push(format!("{path}: {rest} untagged alternatives instead of {n_untagged}"));
            } else {
                for (v, a) in variants
                    .iter()
                    .filter(|v| !v.skipped(c) && (v.untagged || *tag == Tag::Untagged))
                    .zip(&alts[tagged_alts.min(alts.len())..])
                {
                    shape_variant(m, v, root, a, c, &[], &format!("{path}/untagged"), errs, seen, n, inline);
                }
            }
        }
    }
}

fn strs(v: Option<&Value>) -> BTreeSet<&str> {
    v.and_then(Value::as_array).map(|a| a.iter().filter_map(Value::as_str).collect()).unwrap_or_default()
}

#[allow(clippy::too_many_arguments)]
fn shape_variant(m: &Model, v: &model::Variant, root: &Value, s: &Value, c: C, extra: &[&str], path: &str, errs: &mut Vec<String>, seen: &mut BTreeSet<usize>, n: &mut usize, inline: bool) {
    match v.style {
        Style::Unit => {
            *n += 1;
            if s.get("type") != Some(&json!("null")) {
                errs.push(format!("{path}: unit variant is {s}"));
            }
        }
        Style::Newtype => {
            if extra.is_empty() {
                shape_ty(m, v.fields[0].ty(), root, s, c, path, errs, seen, n, inline)
            } else if s.get("$ref").is_none() && s.get("allOf").is_none() {
                // internally tagged newtype, inlined: members of the inner struct plus the tag
                if let Ty::Ref { id } = v.fields[0].ty() {
                    let d = &m.defs[*id];
                    if let Body::Struct { style: Style::Named, fields } = &d.body {
                        if d.from.is_none() && d.into.is_none() && !d.transparent && seen.insert(*id) {
                            shape_fields(m, fields, d.default, root, s, c, extra, path, errs, seen, n, inline)
                        }
                    }
                }
            }
        }
        Style::Tuple => shape_tuple(m, &v.fields, root, s, c, path, errs, seen, n, inline),
        Style::Named => shape_fields(m, &v.fields, false, root, s, c, extra, path, errs, seen, n, inline),
    }
}

#[allow(clippy::too_many_arguments)]
fn shape_tuple(m: &Model, fields: &[model::Field], root: &Value, s: &Value, c: C, path: &str, errs: &mut Vec<String>, seen: &mut BTreeSet<usize>, n: &mut usize, inline: bool) {
    let fs: Vec<_> = fields.iter().filter(|f| !f.skipped(c)).collect();
    let empty = vec![];
    let items = s.get("prefixItems").and_then(Value::as_array).unwrap_or(&empty);
    if items.len() != fs.len() {
        errs.push(format!("{path}: {} tuple items instead of {}", items.len(), fs.len()));
        return;
    }
    for (i, (f, x)) in fs.iter().zip(items).enumerate() {
        *n += 1;
        shape_ty(m, f.ty(), root, x, c, &format!("{path}/{i}"), errs, seen, n, inline);
    }
}

#[allow(clippy::too_many_arguments)]
fn shape_fields(m: &Model, fields: &[model::Field], cdefault: bool, root: &Value, s: &Value, c: C, extra: &[&str], path: &str, errs: &mut Vec<String>, seen: &mut BTreeSet<usize>, n: &mut usize, inline: bool) {
    let mut exact = true;
    let mut names: BTreeMap<String, (Option<&Ty>, bool)> = BTreeMap::new();
    fn collect<'a>(m: &'a Model, fields: &'a [model::Field], cdefault: bool, c: C, names: &mut BTreeMap<String, (Option<&'a Ty>, bool)>, exact: &mut bool, optional: bool) {
        for f in fields.iter().filter(|f| !f.skipped(c)) {
            if f.flatten {
                let mut t = f.ty();
                let mut opt = optional;
                loop {
                    match t {
                        Ty::Wrap { t: u } => t = u,
                        Ty::Opt { t: u } => {
                            opt = true;
                            t = u
                        }
                        _ => break,
                    }
                }
                match t {
                    Ty::Ref { id } => {
                        let d = &m.defs[*id];
                        match &d.body {
                            Body::Struct { style: Style::Named, fields } if d.from.is_none() && d.into.is_none() && !d.transparent => {
                                collect(m, fields, d.default, c, names, exact, opt)
                            }
                            _ => *exact = false,
                        }
                    }
                    _ => *exact = false,
                }
                continue;
            }
            let req = !optional
                && match c {
                    C::Ser => !f.skip_if,
                    C::De => !(f.default || cdefault || (!f.with && m.missing_ok(f.ty()))),
                };
            names.insert(f.name(c).to_string(), (Some(f.ty()), req));
        }
    }
    collect(m, fields, cdefault, c, &mut names, &mut exact, false);
    for e in extra {
        names.insert(e.to_string(), (None, true));
    }
    let empty = serde_json::Map::new();
    let props = s.get("properties").and_then(Value::as_object).unwrap_or(&empty);
    let req = strs(s.get("required"));
    *n += names.len();
    for (k, (t, r)) in &names {
        match props.get(k) {
            None => errs.push(format!("{path}: member {k:?} missing")),
            Some(x) => {
                if let Some(t) = t {
                    shape_ty(m, t, root, x, c, &format!("{path}.{k}"), errs, seen, n, inline);
                }
            }
        }
        if *r != req.contains(k.as_str()) {
            errs.push(format!("{path}: member {k:?} {}required", if *r { "not " } else { "" }));
        }
    }
    if exact {
        for k in props.keys() {
            if !names.contains_key(k) {
                errs.push(format!("{path}: unexpected member {k:?}"));
            }
        }
        for k in &req {
            if !names.contains_key(*k) {
                errs.push(format!("{path}: unknown required {k:?}"));
            }
        }
    }
    // no duplicates
    if let Some(a) = s.get("required").and_then(Value::as_array) {
        if a.len() != req.len() {
            errs.push(format!("{path}: duplicate required entries"));
        }
    }
}

/// Descends into the schema of a type as far as its definitions are concerned.
#[allow(clippy::too_many_arguments)]
fn shape_ty(m: &Model, t: &Ty, root: &Value, s: &Value, c: C, path: &str, errs: &mut Vec<String>, seen: &mut BTreeSet<usize>, n: &mut usize, inline: bool) {
    match t {
        Ty::Ref { id } => shape_def(m, *id, root, s, c, path, errs, seen, n, inline),
        Ty::Wrap { t } => shape_ty(m, t, root, s, c, path, errs, seen, n, inline),
        Ty::Vec { t } => {
            let s = deref(root, s);
            if let Some(x) = s.get("items") {
                shape_ty(m, t, root, x, c, &format!("{path}[]"), errs, seen, n, inline)
            }
        }
        Ty::Map { t, key } if key == "String" => {
            let s = deref(root, s);
            if let Some(x) = s.get("additionalProperties") {
                shape_ty(m, t, root, x, c, &format!("{path}{{}}"), errs, seen, n, inline)
            }
        }
        Ty::Tuple { ts } => {
            let s = deref(root, s);
            if let Some(a) = s.get("prefixItems").and_then(Value::as_array) {
                for (t, x) in ts.iter().zip(a) {
                    shape_ty(m, t, root, x, c, &format!("{path}()"), errs, seen, n, inline)
                }
            }
        }
        _ => {}
    }
}
