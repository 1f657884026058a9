//! C17: metadata. The document of a type with metadata must be the document of the same type without it,
//! with exactly the stated operations done at the stated items; defaults are compared with what serde itself produces.
use crate::corpus::Cfg;
use crate::model::C;
use crate::val::Dia;
use crate::{guarded, Report, Rng};
use schemars::generate::SchemaGenerator;
use schemars::transform::Transform;
use schemars::{JsonSchema, Schema};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

pub struct Ops {
    id: usize,
    plain: fn(SchemaGenerator) -> Schema,
    with: fn(SchemaGenerator) -> Schema,
}
impl Ops {
    pub fn new<P: JsonSchema, T: JsonSchema>(id: usize) -> Ops {
        Ops { id, plain: |g| g.into_root_schema_for::<P>(), with: |g| g.into_root_schema_for::<T>() }
    }
}
pub struct Dflt {
    id: usize,
    root: fn(SchemaGenerator) -> Schema,
    through: fn(Value) -> Result<Value, String>,
}
impl Dflt {
    pub fn new<T: JsonSchema + Serialize + for<'a> Deserialize<'a>>(id: usize) -> Dflt {
        Dflt { id, root: |g| g.into_root_schema_for::<T>(), through: |v| serde_json::from_value::<T>(v).and_then(|x| serde_json::to_value(&x)).map_err(|e| e.to_string()) }
    }
}

/// A value whose serialization fails.
#[derive(JsonSchema, Default)]
pub struct Fails;
impl Serialize for Fails {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("never"))
    }
}

// ---- transforms used in the attributes. They look at metadata only.
const SEEN: &[&str] = &["title", "description", "deprecated", "examples", "$comment", "x-a", "x-b", "x", "readOnly", "writeOnly", "default"];
pub fn log(s: &mut Schema, name: &str) {
    let seen: Vec<String> = SEEN.iter().filter(|k| s.get(**k).is_some()).map(|k| k.to_string()).collect();
    let entry = json!([name, seen]);
    match s.ensure_object().entry("x-log").or_insert(json!([])) {
        Value::Array(a) => a.push(entry),
        _ => {}
    }
}
pub fn log_fn(s: &mut Schema) {
    log(s, "fn");
}
pub fn logger(name: &'static str) -> impl FnMut(&mut Schema) {
    move |s: &mut Schema| log(s, name)
}
pub struct Log(pub &'static str);
impl Transform for Log {
    fn transform(&mut self, s: &mut Schema) {
        log(s, self.0);
    }
}
pub fn drop(s: &mut Schema) {
    s.remove("description");
}
pub fn upper(s: &mut Schema) {
    if let Some(Value::String(t)) = s.get_mut("title") {
        *t = t.to_uppercase();
    }
}
pub fn moved(s: &mut Schema) {
    if let Some(t) = s.remove("description") {
        s.insert("x-moved".into(), t);
    }
}

fn obj(v: &mut Value) -> &mut Map<String, Value> {
    // a boolean schema gains metadata as the equivalent object
    match v {
        Value::Bool(true) => *v = json!({}),
        Value::Bool(false) => *v = json!({"not": {}}),
        _ => {}
    }
    v.as_object_mut().expect("schema")
}
fn apply(ops: &Value, at: &mut Value, n: &mut u64) {
    for op in ops.as_array().unwrap() {
        *n += 1;
        if let Some(k) = op["set"].as_str() {
            obj(at).insert(k.into(), op["v"].clone());
            continue;
        }
        if op["t"] != "log" && at.is_boolean() {
            // these change what is there only
            continue;
        }
        let o = obj(at);
        match op["t"].as_str().unwrap() {
            "log" => {
                let seen: Vec<&&str> = SEEN.iter().filter(|k| o.contains_key(**k)).collect();
                let e = json!([op["v"], seen]);
                if let Value::Array(a) = o.entry("x-log").or_insert(json!([])) {
                    a.push(e);
                }
            }
            "drop" => {
                o.remove("description");
            }
            "upper" => {
                if let Some(t) = o.get("title").and_then(Value::as_str) {
                    let t = json!(t.to_uppercase());
                    o.insert("title".into(), t);
                }
            }
            "moved" => {
                if let Some(t) = o.remove("description") {
                    o.insert("x-moved".into(), t);
                }
            }
            k => panic!("{k}"),
        }
    }
}

struct M<'a> {
    defs: &'a [Value],
    c: C,
    titles: bool,
    /// schema items given metadata, operations applied
    items: u64,
    ops: u64,
    lost: Vec<String>,
}

impl M<'_> {
    fn key<'b>(&self, f: &'b Value) -> &'b str {
        f[if self.c == C::Ser { "ser" } else { "de" }].as_str().unwrap()
    }
    fn skipped(&self, f: &Value) -> bool {
        f[if self.c == C::Ser { "skip_serializing" } else { "skip_deserializing" }] == true
    }
    fn host(&mut self, id: usize, at: &mut Value) {
        let d = self.defs[id].clone();
        if d["xplain"] == true {
            let o = obj(at);
            o.remove("x-plain");
            if o.is_empty() {
                *at = json!(true);
            } else if *at == json!({"not": {}}) {
                *at = json!(false);
            }
        }
        match d["kind"].as_str().unwrap() {
            "struct" => {
                self.named(&d["fields"], at);
                if let Some(f) = d["flat"].as_u64() {
                    let fd = self.defs[f as usize]["fields"].clone();
                    self.named(&fd, at);
                }
            }
            "tuple" => self.tuple(&d["fields"], at),
            "newtype" => self.field(&d["fields"][0], at),
            "unit" | "repr" => {}
            "enum" => self.variants(&d, at),
            k => panic!("{k}"),
        }
        if d["ops"].as_array().is_some_and(|a| !a.is_empty()) {
            self.items += 1;
        }
        apply(&d["ops"], at, &mut self.ops);
    }
    fn named(&mut self, fields: &Value, at: &mut Value) {
        for f in fields.as_array().unwrap() {
            if self.skipped(f) {
                continue;
            }
            let k = self.key(f).to_string();
            match at.get_mut("properties").and_then(|p| p.get_mut(&k)) {
                Some(x) => self.field(f, x),
                None => self.lost.push(format!("property {k}")),
            }
        }
    }
    fn tuple(&mut self, fields: &Value, at: &mut Value) {
        let mut i = 0;
        for f in fields.as_array().unwrap() {
            if self.skipped(f) {
                continue;
            }
            match at.get_mut("prefixItems").or(None).and_then(|p| p.get_mut(i)) {
                Some(x) => self.field(f, x),
                None => self.lost.push(format!("item {i}")),
            }
            i += 1;
        }
    }
    fn field(&mut self, f: &Value, at: &mut Value) {
        // validation-free marks are set after the attributes have been applied
        let mut kept = Vec::new();
        if let Value::Object(o) = at {
            for k in ["readOnly", "writeOnly", "default"] {
                if let Some(v) = o.remove(k) {
                    kept.push((k, v));
                }
            }
        }
        if !f["ty"].is_null() {
            let i = f["ty"]["i"].as_u64().unwrap() as usize;
            let inner = match f["ty"]["k"].as_str().unwrap() {
                "vec" => at.get_mut("items"),
                "map" => at.get_mut("additionalProperties"),
                "opt" if at.get("anyOf").is_some() => at.get_mut("anyOf").and_then(|a| a.get_mut(0)),
                _ => Some(&mut *at),
            };
            match inner {
                // a reference to the type itself, or its schema in place
                Some(x) if x.get("$ref").and_then(Value::as_str).is_some_and(|r| r == "#" || r.rsplit('/').next() == self.defs[i]["rust"].as_str()) => {}
                Some(x) => self.host(i, x),
                None => self.lost.push("inner schema".into()),
            }
        }
        if f["ops"].as_array().is_some_and(|a| !a.is_empty()) {
            self.items += 1;
        }
        apply(&f["ops"], at, &mut self.ops);
        for (k, v) in kept {
            obj(at).insert(k.into(), v);
        }
    }
    fn variants(&mut self, d: &Value, at: &mut Value) {
        let repr = d["repr"].as_str().unwrap();
        if at == &json!(false) || at.get("not") == Some(&json!({})) {
            return;
        }
        let key = if at.get("oneOf").is_some() { "oneOf" } else { "anyOf" };
        let Some(list) = at.get_mut(key).and_then(Value::as_array_mut) else {
            self.lost.push("variants".into());
            return;
        };
        let mut index = 0;
        for v in d["variants"].as_array().unwrap() {
            if self.skipped(v) {
                continue;
            }
            let i = index;
            index += 1;
            let name = v["name"].as_str().unwrap();
            let untagged = v["untagged"] == true || repr == "untagged";
            let found = if repr == "untagged" {
                list.get_mut(i)
            } else {
                list.iter_mut().find(|x| {
                    if untagged {
                        let k = v["fields"][0][if self.c == C::Ser { "ser" } else { "de" }].as_str().unwrap();
                        return x["properties"].get(k).is_some();
                    }
                    match repr {
                        "ext" => x["const"] == name || x["properties"].get(name).is_some(),
                        _ => x["properties"]["tag"]["const"] == name,
                    }
                })
            };
            let Some(x) = found else {
                if d["refv"] != true {
                    self.lost.push(format!("variant {name}"));
                }
                continue;
            };
            self.variant(repr, v, untagged, x);
        }
    }
    fn variant(&mut self, repr: &str, v: &Value, untagged: bool, at: &mut Value) {
        let name = v["name"].as_str().unwrap();
        let auto = if untagged && self.titles && v["title_attr"] != true {
            Some(name)
        } else {
            None
        };
        if untagged && self.titles {
            // set by the setting in the plain document
            if let Value::Object(o) = &mut *at {
                o.remove("title");
            }
        }
        {
            let content = if untagged {
                Some(&mut *at)
            } else {
                match repr {
                    "ext" => at.get_mut("properties").and_then(|p| p.get_mut(name)),
                    "adj" => at.get_mut("properties").and_then(|p| p.get_mut("c")),
                    _ => Some(&mut *at),
                }
            };
            match (v["style"].as_str().unwrap(), content) {
                ("unit", _) => {}
                (_, None) => self.lost.push(format!("content of {name}")),
                ("newtype", Some(x)) => self.field(&v["fields"][0], x),
                ("tuple", Some(x)) => self.tuple(&v["fields"], x),
                ("struct", Some(x)) => self.named(&v["fields"], x),
                _ => unreachable!(),
            }
        }
        if let Some(t) = auto {
            obj(at).insert("title".into(), json!(t));
        }
        if v["ops"].as_array().is_some_and(|a| !a.is_empty()) {
            self.items += 1;
        }
        apply(&v["ops"], at, &mut self.ops);
    }
}

/// String enumerations become alternatives, and alternatives are put in some fixed order.
fn split(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(split),
        Value::Object(o) => {
            // all unit variants skipped
            for k in ["oneOf", "anyOf"] {
                if let Some(Value::Array(a)) = o.get_mut(k) {
                    a.retain(|x| *x != json!({"type": "string", "enum": []}));
                }
            }
            o.iter_mut().filter(|(k, _)| !["examples", "default", "x-log"].contains(&k.as_str())).for_each(|(_, v)| split(v));
            let strings = |o: &Map<String, Value>| -> Option<Vec<Value>> {
                (o.get("type")? == "string").then_some(())?;
                Some(o.get("enum")?.as_array()?.iter().map(|n| json!({"type": "string", "const": n})).collect())
            };
            for k in ["oneOf", "anyOf"] {
                if let Some(Value::Array(a)) = o.get_mut(k) {
                    *a = a
                        .drain(..)
                        .flat_map(|x| match x.as_object().filter(|x| x.len() == 2).and_then(strings) {
                            Some(v) => v,
                            None => vec![x],
                        })
                        .flat_map(|x| match x.as_object().filter(|x| x.len() == 1).and_then(|x| x.get("oneOf")).and_then(Value::as_array) {
                            // (an enumeration already split by the inner call)
                            Some(v) if v.iter().all(|y| y.as_object().is_some_and(|y| y.len() == 2 && y.contains_key("const"))) => v.clone(),
                            _ => vec![x],
                        })
                        .collect();
                }
            }
            if let Some(v) = strings(o) {
                o.remove("type");
                o.remove("enum");
                if v.is_empty() {
                    o.insert("not".into(), json!({}));
                } else {
                    o.insert("oneOf".into(), json!(v));
                }
            }
        }
        _ => {}
    }
}
fn sort(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(sort),
        Value::Object(o) => {
            for (k, v) in o.iter_mut() {
                sort(v);
                if matches!(k.as_str(), "oneOf" | "anyOf") {
                    if let Value::Array(a) = v {
                        a.sort_by_cached_key(crate::canon);
                    }
                }
            }
        }
        _ => {}
    }
}

pub fn main(ops: Vec<Ops>, dflts: Vec<Dflt>, noser: fn(SchemaGenerator) -> Schema, model: &str) {
    crate::report::hook();
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let prog = std::env::args().next().unwrap().rsplit('/').next().unwrap().to_string();
    let mut rep = Report::new(&prop);
    let _ = Rng::from_env(&prog);
    let model: Value = serde_json::from_str(model).unwrap();
    let defs = model["defs"].as_array().unwrap();
    let only = std::env::var("VH_ONLY").ok();
    for o in &ops {
        if only.as_ref().is_some_and(|x| defs[o.id]["rust"] != **x) {
            continue;
        }
        one(&mut rep, &prog, defs, o);
    }
    for d in &dflts {
        if only.as_ref().is_some_and(|x| model["dflts"][d.id]["rust"] != **x) {
            continue;
        }
        default(&mut rep, &prog, &model["dflts"][d.id], d);
    }
    for c in [C::De, C::Ser] {
        let s = (noser)(Cfg { dia: Dia::D20, inline: false }.settings(c).into_generator()).to_value();
        for (k, want) in [("a", None), ("b", None), ("c", Some(json!(0))), ("d", None)] {
            rep.case(&format!("noser {c:?} {k}"), true);
            if s["properties"][k].get("default") != want.as_ref() {
                rep.violation(&format!("noser:{k}"), &format!("{c:?}: member {k} shows default {:?}, expected {want:?}", s["properties"][k].get("default")), json!(s));
            }
        }
    }
    rep.finish();
}

fn one(rep: &mut Report, prog: &str, defs: &[Value], o: &Ops) {
    let d = &defs[o.id];
    let rust = d["rust"].as_str().unwrap();
    rep.count(&format!("hosts-{}{}", d["kind"].as_str().unwrap(), d["repr"].as_str().map(|r| format!("-{r}")).unwrap_or_default()));
    for titles in [false, true] {
        for cfg in Cfg::all() {
            for c in [C::De, C::Ser] {
                let what = format!("{prog} {rust} under {}{}:{c:?}", cfg.name(), if titles { "/variant-titles" } else { "" });
                rep.breadcrumb(&what);
                let get = |f: fn(SchemaGenerator) -> Schema| {
                    guarded(|| {
                        let mut s = cfg.settings(c);
                        s.untagged_enum_variant_titles = titles;
                        f(s.into_generator()).to_value()
                    })
                };
                let (p, a) = match (get(o.plain), get(o.with)) {
                    (Ok(p), Ok(a)) => (p, a),
                    (Err(e), _) | (_, Err(e)) => {
                        rep.violation(&format!("panics:{prog}:{rust}"), &format!("{what}: schema generation panicked: {e}"), json!(null));
                        continue;
                    }
                };
                // what is expected: the document without metadata and before the dialect's own transforms,
                // the stated operations, then the dialect's transforms
                let Ok(mut plain) = guarded(|| {
                    let mut s = cfg.settings(c);
                    s.untagged_enum_variant_titles = titles;
                    s.transforms.clear();
                    (o.plain)(s.into_generator()).to_value()
                }) else {
                    continue;
                };
                let mut m = M { defs, c, titles, items: 0, ops: 0, lost: vec![] };
                split(&mut plain);
                let root = plain.as_object_mut().unwrap();
                let schema = root.remove("$schema");
                let home = ["$defs", "definitions", "components"].into_iter().find(|k| root.contains_key(*k));
                let mut dm = home.map(|k| root.remove(k).unwrap());
                let auto = root.remove("title");
                m.host(o.id, &mut plain);
                if let Some(t) = auto {
                    obj(&mut plain).entry("title").or_insert(t);
                }
                let list = match home {
                    Some("components") => dm.as_mut().and_then(|x| x.get_mut("schemas")),
                    _ => dm.as_mut(),
                };
                if let Some(Value::Object(list)) = list {
                    for (k, v) in list.iter_mut() {
                        if let Some(i) = defs.iter().position(|x| x["rust"] == **k) {
                            m.host(i, v);
                        } else if let Some((h, var)) = defs.iter().find_map(|x| Some((x, x["variants"].as_array()?.iter().find(|y| y["name"] == **k)?))) {
                            let repr = h["repr"].as_str().unwrap();
                            m.variant(repr, var, repr == "untagged" || var["untagged"] == true, v);
                        }
                    }
                }
                if let Some(x) = dm {
                    plain[home.unwrap()] = x;
                }
                if let Some(x) = schema {
                    plain["$schema"] = x;
                }
                let mut want: Schema = plain.try_into().unwrap();
                for t in cfg.settings(c).transforms.iter_mut() {
                    t.transform(&mut want);
                }
                let mut want = want.to_value();
                rep.add("items-with-metadata", m.items);
                rep.add("operations", m.ops);
                if !m.lost.is_empty() {
                    rep.inconclusive(format!("{what}: not located in the plain document: {:?}", m.lost));
                    continue;
                }
                rep.case(&format!("{what} {}", a), m.items > 0);
                let mut got = a.clone();
                for x in [&mut got, &mut want] {
                    split(x);
                    sort(x);
                }
                rep.count(&format!("documents-{}", cfg.name()));
                if got != want {
                    let at = crate::twins::first_difference(&want, &got, "").unwrap_or_default();
                    rep.violation(
                        &format!("metadata:{prog}:{rust}"),
                        &format!("{what}: the document with metadata is not the plain document with the stated metadata at the stated items: {at}"),
                        json!({"plain": p, "expected": want, "got": got, "document": a, "model": d}),
                    );
                }
                rep.sample("host", || json!({"rust": rust, "document": a, "model": d}));
            }
        }
    }
}

fn default(rep: &mut Report, prog: &str, d: &Value, o: &Dflt) {
    let rust = d["rust"].as_str().unwrap();
    let kind = d["kind"].as_str().unwrap();
    let base = d["base"].clone();
    let doc = match kind {
        "ext" => json!({ "V": base }),
        "adj" => json!({"tag": "V", "c": base}),
        "int" => {
            let mut b = base;
            b["tag"] = json!("V");
            b
        }
        _ => base,
    };
    let thru = match guarded(|| (o.through)(doc.clone())) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) | Err(e) => {
            rep.inconclusive(format!("{prog} {rust}: serde refuses the base document {doc}: {e}"));
            return;
        }
    };
    let vals = match kind {
        "ext" => &thru["V"],
        "adj" => &thru["c"],
        _ => &thru,
    };
    for cfg in Cfg::all() {
        for c in [C::De, C::Ser] {
            let what = format!("{prog} {rust} ({kind}) under {}:{c:?}", cfg.name());
            rep.breadcrumb(&what);
            let Ok(s) = guarded(|| (o.root)(cfg.settings(c).into_generator()).to_value()) else {
                rep.violation(&format!("panics:{prog}:{rust}"), &format!("{what}: schema generation panicked"), json!(null));
                continue;
            };
            let list = if s.get("oneOf").is_some() { &s["oneOf"][0] } else { &s["anyOf"][0] };
            let at = match kind {
                "struct" => &s,
                "ext" => &list["properties"]["V"],
                "adj" => &list["properties"]["c"],
                _ => list,
            };
            for f in d["fields"].as_array().unwrap() {
                if f[if c == C::Ser { "skip_ser" } else { "skip_de" }] == true {
                    continue;
                }
                let k = f[if c == C::Ser { "ser" } else { "de" }].as_str().unwrap();
                let Some(p) = at["properties"].get(k) else {
                    rep.violation(&format!("absent:{prog}:{rust}:{k}"), &format!("{what}: property {k} is missing"), json!(s));
                    continue;
                };
                let want = if f["has"] == true && f["skip_ser"] != true { vals.get(f["ser"].as_str().unwrap()).cloned() } else { None };
                let got = p.get("default").cloned();
                rep.case(&format!("{what} {k} {got:?}"), want.is_some());
                rep.count(if want.is_some() { "defaults-shown" } else { "defaults-not-shown" });
                if got != want {
                    rep.violation(&format!("default:{prog}:{rust}:{k}"), &format!("{what}: property {k} shows default {got:?}, serde gives {want:?}"), json!({"schema": s, "model": d, "serde": thru}));
                }
            }
            rep.sample("default", || json!({"rust": rust, "schema": s, "serde": thru}));
        }
    }
}
