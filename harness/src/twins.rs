//! C18/C20: two spellings of the same random types (modules `a` and `b` of a generated program)
//! must give the very same documents.
use crate::corpus::Cfg;
use crate::model::C;
use crate::{canon, guarded, walk, Report, Rng};
use schemars::generate::SchemaGenerator;
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};

pub struct Top {
    pub id: usize,
    pub label: &'static str,
    pub into_root: fn(SchemaGenerator) -> Schema,
    pub sub: fn(&mut SchemaGenerator) -> Schema,
    pub name: fn() -> String,
    pub inline: fn() -> bool,
}
impl Top {
    pub fn new<T: JsonSchema + ?Sized>(id: usize, label: &'static str) -> Top {
        Top {
            id,
            label,
            into_root: |g| g.into_root_schema_for::<T>(),
            sub: |g| g.subschema_for::<T>(),
            name: || T::schema_name().into_owned(),
            inline: T::inline_schema,
        }
    }
}

pub fn main(a: Vec<Top>, b: Vec<Top>) {
    crate::report::hook();
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let prog = std::env::args().next().unwrap().rsplit('/').next().unwrap().to_string();
    let mut rep = Report::new(&prop);
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for t in &b {
                let o = &a[t.id];
                compare(&mut rep, &prog, o, t);
            }
            histories(&mut rep, &prog, &a, &b);
            rep
        })
        .unwrap();
    match h.join() {
        Ok(rep) => rep.finish(),
        Err(_) => std::process::exit(101),
    }
}

/// A host of flattened maps with restricted keys: (key, JSON it takes, JSON it does not take).
pub struct Probe {
    pub label: &'static str,
    pub top: Top,
    pub ser: fn(&mut Rng) -> Value,
    pub keys: &'static [(&'static str, &'static str, &'static str)],
}
impl Probe {
    pub fn new<T: JsonSchema + crate::gen::Arb + serde::Serialize>(label: &'static str, keys: &'static [(&'static str, &'static str, &'static str)]) -> Probe {
        Probe { label, top: Top::new::<T>(0, label), ser: |r| serde_json::to_value(T::arb(r)).unwrap(), keys }
    }
}

/// C26: hosts with flattened members versus the same members in place, and probes.
pub fn flat_main(a: Vec<Top>, b: Vec<Top>, probes: Vec<Probe>) {
    crate::report::hook();
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let prog = std::env::args().next().unwrap().rsplit('/').next().unwrap().to_string();
    let mut rep = Report::new(&prop);
    let mut rng = Rng::from_env(&prog);
    for t in &b {
        in_place(&mut rep, &prog, &a[t.id], t);
    }
    for p in &probes {
        probe(&mut rep, &prog, p, &mut rng);
    }
    rep.finish();
}

/// Drops what does not bear on meaning or cannot be compared (key order is ignored anyway).
fn plain(v: &Value) -> Value {
    fold(&serde_json::from_str(&crate::canon_schema(v)).unwrap())
}

/// Several conjoined sets of alternatives, in one form and order: `allOf` of their own objects.
fn fold(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(fold).collect(),
        Value::Object(o) => {
            let mut o: Map<String, Value> = o.iter().map(|(k, x)| (k.clone(), fold(x))).collect();
            if o.get("allOf").is_some_and(Value::is_array) {
                let mut todo = vec![o.remove("allOf").unwrap()];
                let mut parts = vec![];
                while let Some(x) = todo.pop() {
                    match x {
                        Value::Array(a) => todo.extend(a),
                        Value::Object(mut m) if m.get("allOf").is_some_and(Value::is_array) => {
                            todo.push(m.remove("allOf").unwrap());
                            if !m.is_empty() {
                                todo.push(Value::Object(m));
                            }
                        }
                        x => parts.push(x),
                    }
                }
                for k in ["oneOf", "anyOf"] {
                    if o.get(k).is_some_and(Value::is_array) {
                        parts.push(json!({k: o.remove(k)}));
                    }
                }
                parts.sort_by_key(canon);
                o.insert("allOf".into(), Value::Array(parts));
            }
            Value::Object(o)
        }
        _ => v.clone(),
    }
}

fn in_place(rep: &mut Report, prog: &str, a: &Top, b: &Top) {
    rep.count("hosts");
    for c in [C::Ser, C::De] {
        for cfg in Cfg::all() {
            let what = format!("{} vs {} under {}:{c:?}", a.label, b.label, cfg.name());
            rep.breadcrumb(&what);
            let get = |t: &Top| guarded(|| (t.into_root)(cfg.settings(c).into_generator()).to_value());
            let (x, y) = (get(a), get(b));
            let (Ok(x), Ok(y)) = (&x, &y) else {
                rep.violation(&format!("flatten-panics:{prog}:{}", a.label), &format!("{what}: schema generation panicked"), json!([x.err(), y.err()]));
                continue;
            };
            let (x, y) = (plain(x), plain(y));
            let text = x.to_string();
            rep.case(&format!("{prog}{what}{text}"), text.len() > 150);
            for k in ["oneOf", "anyOf", "allOf", "patternProperties", "unevaluatedProperties"] {
                if text.contains(k) {
                    rep.count(&format!("flattened-documents-with-{k}"));
                }
            }
            if let Some(d) = first_difference(&x, &y, "") {
                rep.violation(
                    &format!("flatten-differs:{prog}:{}", a.label),
                    &format!("{what}: the flattened and the in-place schema differ at {d}"),
                    json!({"flattened": x, "in_place": y}),
                );
            }
            rep.sample("in-place", || json!({"flattened": a.label, "document": x}));
        }
    }
}

fn probe(rep: &mut Report, prog: &str, p: &Probe, rng: &mut Rng) {
    rep.count("probed-hosts");
    for cfg in Cfg::all() {
        let what = format!("{} under {}", p.label, cfg.name());
        rep.breadcrumb(&what);
        let Ok(s) = guarded(|| (p.top.into_root)(cfg.settings(C::Ser).into_generator()).to_value()) else {
            rep.violation(&format!("flatten-panics:{prog}:{}", p.label), &format!("{what}: schema generation panicked"), json!(null));
            continue;
        };
        let v = match crate::val::compile(&s, cfg.dia) {
            Ok(v) => v,
            Err(e) => {
                rep.violation(&format!("flatten-uncompilable:{prog}:{}", p.label), &format!("{what}: {e}"), s);
                continue;
            }
        };
        for _ in 0..Report::scale(4, 20) {
            rng.fuel = 20;
            let base = (p.ser)(rng);
            let mut bad = |doc: &Value, want: bool, why: &str| {
                rep.case(&format!("{prog}{what}{doc}"), true);
                rep.count(why);
                if v.is_valid(doc) != want {
                    rep.violation(
                        &format!("flatten-keys:{prog}:{}:{why}", p.label),
                        &format!("{what}: {why}: schema says {} for {doc}", !want),
                        json!({"schema": s, "doc": doc}),
                    );
                }
            };
            bad(&base, true, "serialized value");
            for (k, good, wrong) in p.keys {
                let mut doc = base.clone();
                doc[*k] = serde_json::from_str(good).unwrap();
                bad(&doc, true, "right value at a restricted key");
                doc[*k] = serde_json::from_str(wrong).unwrap();
                bad(&doc, false, "wrong value at a restricted key");
            }
        }
    }
}

/// The first place where two JSON values differ.
pub fn first_difference(a: &Value, b: &Value, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{path}/{k} only in the first")),
                    Some(w) => {
                        if let Some(d) = first_difference(v, w, &format!("{path}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{path}/{k} only in the second"))
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (v, w))| first_difference(v, w, &format!("{path}/{i}"))),
        _ if a == b => None,
        _ => {
            let cut = |v: &Value| v.to_string().chars().take(150).collect::<String>();
            Some(format!("{path}: {} versus {}", cut(a), cut(b)))
        }
    }
}

fn compare(rep: &mut Report, prog: &str, a: &Top, b: &Top) {
    rep.count("pairs");
    let mut key = String::new();
    for c in [C::Ser, C::De] {
        for cfg in Cfg::all() {
            let what = format!("{} vs {} under {}:{c:?}", a.label, b.label, cfg.name());
            rep.breadcrumb(&what);
            let get = |t: &Top| guarded(|| (t.into_root)(cfg.settings(c).into_generator()).to_value());
            match (get(a), get(b)) {
                (Ok(x), Ok(y)) => {
                    let text = x.to_string();
                    rep.case(&format!("{what}{text}{}", b.label), text.len() > 150);
                    if text.contains("\"default\"") {
                        rep.count("documents-with-defaults");
                    }
                    if text.contains("\"$ref\"") {
                        rep.count("documents-with-references");
                    }
                    if key.is_empty() {
                        key = text;
                    }
                    if let Some(d) = first_difference(&x, &y, "") {
                        rep.violation(
                            &format!("twins-differ:{prog}:{}", b.label),
                            &format!("{what}: documents differ at {d}"),
                            json!({"first": x, "second": y}),
                        );
                    }
                }
                (Err(_), Err(_)) => rep.count("both-panic"),
                (x, y) => rep.violation(
                    &format!("twin-panics:{prog}:{}", b.label),
                    &format!("{what}: only one of the twins generates a schema"),
                    json!({"first": x.err(), "second": y.err()}),
                ),
            }
        }
    }
    if (a.name)() != (b.name)() || (a.inline)() != (b.inline)() {
        rep.violation(
            &format!("twin-names:{prog}:{}", b.label),
            &format!("{} and {}: schema name/inlining differ: {} {} vs {} {}", a.label, b.label, (a.name)(), (a.inline)(), (b.name)(), (b.inline)()),
            json!(null),
        );
    }
    rep.sample("twins", || json!({"first": a.label, "second": b.label, "document": serde_json::from_str::<Value>(&key).unwrap_or_default()}));
}

/// All types requested from one generator: the same references and the same definitions result.
fn histories(rep: &mut Report, prog: &str, a: &[Top], b: &[Top]) {
    for c in [C::Ser, C::De] {
        for cfg in Cfg::all() {
            rep.breadcrumb(&format!("history under {}:{c:?}", cfg.name()));
            let mut ga = cfg.settings(c).into_generator();
            let mut gb = cfg.settings(c).into_generator();
            let mut bad = None;
            for t in b {
                let o = &a[t.id];
                let (x, y) = ((o.sub)(&mut ga).to_value(), (t.sub)(&mut gb).to_value());
                rep.count("subschemas-compared");
                if let Some(d) = first_difference(&x, &y, "") {
                    bad.get_or_insert((t.label, format!("subschemas of {} and {} differ at {d}", o.label, t.label)));
                }
            }
            let (da, db) = (Value::Object(ga.take_definitions(true)), Value::Object(gb.take_definitions(true)));
            rep.case(&format!("history{}:{c:?}{}", cfg.name(), da), true);
            let mut n = 0;
            for d in da.as_object().unwrap().values() {
                walk::walk(d, &mut |_, _| n += 1);
            }
            rep.add("schemas-in-shared-definitions", n);
            if let Some(d) = first_difference(&da, &db, "") {
                bad.get_or_insert(("definitions", format!("definitions differ at {d}")));
            }
            if let Some((l, w)) = bad {
                rep.violation(&format!("twin-histories:{prog}:{l}"), &format!("{}:{c:?}: {w}", cfg.name()), json!(null));
            }
        }
    }
}

#[allow(dead_code)]
mod pairs {
    use super::*;
    use std::borrow::Cow;
    use std::cell::{Cell, RefCell};
    use std::collections::*;

    #[derive(JsonSchema)]
    pub struct Plain {
        pub a: u8,
        pub b: Option<Box<Plain>>,
    }
    #[derive(JsonSchema)]
    #[serde(tag = "t")]
    pub enum Choice {
        One { x: bool },
        Two(Plain),
    }
    #[derive(JsonSchema)]
    pub struct Node<X> {
        pub value: X,
        pub next: Vec<Node<X>>,
    }
    /// A type of each position a wrapper can be in.
    #[derive(JsonSchema)]
    pub struct Holder<W> {
        pub member: W,
        #[serde(skip_serializing_if = "crate::gen::skip_any")]
        pub maybe: W,
        pub list: Vec<W>,
        pub pair: (W, u8),
        pub opt: Option<W>,
        #[schemars(length(min = 1), range(max = 9))]
        pub limited: W,
        pub map: BTreeMap<String, W>,
    }
    #[derive(JsonSchema)]
    pub struct Newtype<W>(W);
    #[derive(JsonSchema)]
    pub enum Many<W> {
        A(W),
        B(u8, W),
        C { w: W },
        #[serde(untagged)]
        D(W),
    }
    #[derive(JsonSchema)]
    pub struct Flat<W> {
        pub own: u8,
        #[serde(flatten)]
        pub inner: W,
    }
    impl<X> Clone for Node<X> {
        fn clone(&self) -> Self {
            unimplemented!()
        }
    }
    impl Clone for Plain {
        fn clone(&self) -> Self {
            unimplemented!()
        }
    }
    impl Clone for Choice {
        fn clone(&self) -> Self {
            unimplemented!()
        }
    }

    fn pair<W: JsonSchema + 'static, T: JsonSchema + 'static>(out: &mut Vec<(Top, Top)>, w: &'static str, flat: bool) {
        let n = out.len();
        out.push((Top::new::<T>(n, "its target"), Top::new::<W>(n, w)));
        out.push((Top::new::<Holder<T>>(n, "Holder of its target"), Top::new::<Holder<W>>(n, w)));
        out.push((Top::new::<Newtype<T>>(n, "Newtype of its target"), Top::new::<Newtype<W>>(n, w)));
        out.push((Top::new::<Many<T>>(n, "Many of its target"), Top::new::<Many<W>>(n, w)));
        if flat {
            out.push((Top::new::<Flat<T>>(n, "Flat of its target"), Top::new::<Flat<W>>(n, w)));
        }
    }

    macro_rules! wrappers { ($out:ident, $flat:expr, $t:ty) => { wrappers!($out, $flat, $t,
        Box<$t>, std::rc::Rc<$t>, std::sync::Arc<$t>, Cell<$t>, RefCell<$t>, std::sync::Mutex<$t>, std::sync::RwLock<$t>,
        &'static $t, &'static mut $t, std::num::Wrapping<$t>, std::cmp::Reverse<$t>, Cow<'static, $t>, std::sync::Arc<std::sync::Mutex<Box<$t>>>) };
        ($out:ident, $flat:expr, $t:ty, $($w:ty),*) => {$( pair::<$w, $t>(&mut $out, concat!(stringify!($w)), $flat); )*} }

    pub fn all() -> Vec<(Top, Top)> {
        let mut out = vec![];
        wrappers!(out, false, u8);
        wrappers!(out, false, String);
        wrappers!(out, false, Option<u16>);
        wrappers!(out, true, Plain);
        wrappers!(out, true, Choice);
        wrappers!(out, true, Option<Plain>);
        wrappers!(out, true, BTreeMap<String, Plain>);
        wrappers!(out, true, Node<Option<Choice>>);
        macro_rules! go { ($($flat:expr, $w:ty => $t:ty;)*) => {$( pair::<$w, $t>(&mut out, stringify!($w), $flat); )*} }
        go! {
            false, std::rc::Weak<u8> => Option<u8>;
            true, std::sync::Weak<Plain> => Option<Plain>;
            true, std::rc::Weak<Node<u8>> => Option<Node<u8>>;
            true, std::rc::Weak<Choice> => Option<Choice>;
            true, HashMap<String, Plain> => BTreeMap<String, Plain>;
            true, HashMap<u8, Choice> => BTreeMap<u8, Choice>;
            true, indexmap2::IndexMap<i8, Plain> => BTreeMap<i8, Plain>;
            false, indexmap2::IndexSet<u8> => BTreeSet<u8>;
            false, smallvec1::SmallVec<[Plain; 2]> => Vec<Plain>;
            false, smol_str02::SmolStr => String;
            false, smol_str03::SmolStr => String;
            false, arrayvec07::ArrayString<7> => String;
            false, std::fmt::Arguments<'static> => String;
            false, std::ops::RangeInclusive<Plain> => std::ops::Range<Plain>;
            true, std::marker::PhantomData<Plain> => ();
            true, serde_json::Map<String, Value> => BTreeMap<String, Value>;
            false, bytes1::BytesMut => bytes1::Bytes;
            false, std::sync::atomic::AtomicBool => bool;
            false, std::sync::atomic::AtomicI8 => i8;
            false, std::sync::atomic::AtomicI16 => i16;
            false, std::sync::atomic::AtomicI32 => i32;
            false, std::sync::atomic::AtomicI64 => i64;
            false, std::sync::atomic::AtomicIsize => isize;
            false, std::sync::atomic::AtomicU8 => u8;
            false, std::sync::atomic::AtomicU16 => u16;
            false, std::sync::atomic::AtomicU32 => u32;
            false, std::sync::atomic::AtomicU64 => u64;
            false, std::sync::atomic::AtomicUsize => usize;
            false, Box<str> => String;
            false, std::sync::Arc<str> => String;
            false, Cow<'static, str> => String;
            false, Box<[Plain]> => Vec<Plain>;
            false, &'static [Option<u8>] => Vec<Option<u8>>;
            false, std::rc::Rc<[Choice]> => Vec<Choice>;
            false, Box<std::path::Path> => std::path::PathBuf;
            false, Box<std::ffi::OsStr> => std::ffi::OsString;
            false, Box<std::ffi::CStr> => std::ffi::CString;
            true, Option<Box<Plain>> => Option<Plain>;
            false, Vec<std::sync::Arc<RefCell<Plain>>> => Vec<Plain>;
            true, BTreeMap<Cow<'static, str>, Box<Node<Box<u8>>>> => BTreeMap<String, Node<u8>>;
            false, Box<serde_json::value::RawValue> => Value;
        }
        out
    }
}

pub fn c20(rep: &mut Report) {
    for (a, b) in pairs::all() {
        compare(rep, "core", &a, &b);
    }
}
