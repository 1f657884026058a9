//! C11 and C12: monitors of subschema traversal and of the provided transforms on random documents.
//! The expectations are computed by `walk::direct` (the specifications' list of subschema
//! positions) and by models written from each transform's documentation.
use crate::val::{compile, openapi_fixed, Dia};
use crate::eval::Eval;
use crate::{canon, guarded, walk, Report, Rng};
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::transform::*;
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeSet;

const NAMES: &[&str] = &[
    "a", "b", "c", "not", "const", "items", "$ref", "properties", "a/b", "~", "", "é", "x-1", "additionalProperties", "format", "0",
];
const DATA_KEYS: &[&str] = &[
    "const", "enum", "default", "examples", "example", "x-data", "dependentRequired", "required", "type", "$comment", "x-properties", "title",
    "minimum", "propertyname", "Not", "extension", "components", "$vocabulary", "discriminator", "nullable", "format", "pattern", "$id", "deprecated",
];

/// A JSON value that looks like a schema but is only data.
pub fn bait(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 9 }) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(1, 2)),
        2 => json!(r.below(5)),
        3 => json!(*r.pick(&["", "null", "string", "uuid", "x"])),
        4 => json!(1.5),
        5 => (0..r.below(4)).map(|_| bait(r, depth - 1)).collect(),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(4) {
                let all: Vec<&str> = walk::SINGLE
                    .iter()
                    .chain(walk::ARRAYS)
                    .chain(walk::MAPS)
                    .chain(DATA_KEYS)
                    .chain(&["items", "$ref", "$schema"])
                    .copied()
                    .collect();
                m.insert(r.pick(&all).to_string(), bait(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// A random document with every keyword of every dialect, some with ill-typed values.
pub fn wild(r: &mut Rng, depth: usize, odd: bool) -> Value {
    if depth == 0 || r.chance(1, 9) {
        return match r.below(4) {
            0 => json!(true),
            1 => json!(false),
            2 => json!({}),
            _ => json!({"type": *r.pick(&["string", "null", "object"])}),
        };
    }
    let mut m = Map::new();
    let all: Vec<&str> = walk::SINGLE
        .iter()
        .chain(walk::ARRAYS)
        .chain(walk::MAPS)
        .chain(&["items", "dependencies", "$ref", "items", "examples", "const", "type", "format", "properties", "$schema"])
        .copied()
        .collect();
    for _ in 0..r.range(1, 6) {
        if r.chance(1, 5) {
            m.insert(r.pick(DATA_KEYS).to_string(), bait(r, 3));
            continue;
        }
        let k = *r.pick(&all);
        let v = if odd && r.chance(1, 8) {
            bait(r, 3)
        } else if walk::SINGLE.contains(&k) {
            wild(r, depth - 1, odd)
        } else if walk::ARRAYS.contains(&k) || (k == "items" && r.chance(1, 2)) {
            (0..r.below(4)).map(|_| if odd && r.chance(1, 10) { bait(r, 2) } else { wild(r, depth - 1, odd) }).collect()
        } else if k == "items" {
            wild(r, depth - 1, odd)
        } else if walk::MAPS.contains(&k) || k == "dependencies" {
            let mut o = Map::new();
            for _ in 0..r.below(4) {
                let x = if k == "dependencies" && r.chance(1, 3) {
                    json!(["a", "b"])
                } else if odd && r.chance(1, 10) {
                    bait(r, 2)
                } else {
                    wild(r, depth - 1, odd)
                };
                o.insert(r.pick(NAMES).to_string(), x);
            }
            Value::Object(o)
        } else {
            match k {
                "$ref" => json!(*r.pick(&["#", "#/$defs/A", "http://x/y"])),
                "examples" => (0..r.below(3)).map(|_| bait(r, 3)).collect(),
                "const" => bait(r, 3),
                "type" => type_value(r),
                "format" => json!(*r.pick(FORMATS)),
                "$schema" => json!(*r.pick(SCHEMAS)),
                _ => unreachable!(),
            }
        };
        m.insert(k.to_string(), v);
    }
    Value::Object(m)
}

const SCHEMAS: &[&str] = &[
    "http://json-schema.org/draft-07/schema#",
    "https://json-schema.org/draft/2019-09/schema",
    "https://json-schema.org/draft/2020-12/schema",
];
const FORMATS: &[&str] = &[
    "duration", "uuid", "date-time", "date", "time", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uri",
    "uri-reference", "iri", "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "regex", "int32", "uint8", "double",
    "custom", "", "Date", "partial-date-time",
];

fn type_value(r: &mut Rng) -> Value {
    let ts = ["null", "boolean", "object", "array", "number", "string", "integer"];
    if r.chance(1, 2) {
        json!(*r.pick(&ts))
    } else {
        let mut v: Vec<&str> = ts.iter().copied().filter(|_| r.chance(1, 3)).collect();
        if v.is_empty() {
            v.push("null");
        }
        r.shuffle(&mut v);
        json!(v)
    }
}

fn schema(v: &Value) -> Schema {
    Schema::try_from(v.clone()).expect("bool or object")
}

/// Gives every object in the document (schemas and data alike) a number, so that visits identify
/// their target.
fn number(v: &mut Value, n: &mut u64) {
    match v {
        Value::Object(o) => {
            for (_, x) in o.iter_mut() {
                number(x, n);
            }
            *n += 1;
            o.insert("x-n".into(), json!(*n));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| number(x, n)),
        _ => {}
    }
}

fn seen_of(s: &Schema) -> String {
    match s.as_bool() {
        Some(b) => b.to_string(),
        None => s.get("x-n").map(Value::to_string).unwrap_or_else(|| "?".into()),
    }
}
fn seen_of_value(s: &Value) -> String {
    match s {
        Value::Bool(b) => b.to_string(),
        _ => s.get("x-n").map(Value::to_string).unwrap_or_else(|| "?".into()),
    }
}

struct Logger(Vec<String>);
impl Transform for Logger {
    fn transform(&mut self, s: &mut Schema) {
        self.0.push(seen_of(s));
    }
}
/// Recurses itself by calling `transform_subschemas`.
struct Own {
    log: Vec<String>,
    post: bool,
}
impl Transform for Own {
    fn transform(&mut self, s: &mut Schema) {
        if !self.post {
            self.log.push(seen_of(s));
        }
        transform_subschemas(self, s);
        if self.post {
            self.log.push(seen_of(s));
        }
    }
}

/// Applies `f` to every direct subschema in place, using the specification walker.
fn each_direct(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    let ps: Vec<String> = walk::direct(v).into_iter().map(|(p, _)| p).collect();
    for p in ps {
        f(v.pointer_mut(&p).expect("own pointer"));
    }
}
fn pre_order(v: &Value, out: &mut Vec<String>) {
    out.push(seen_of_value(v));
    for (_, x) in walk::direct(v) {
        pre_order(x, out);
    }
}
fn post_order(v: &Value, out: &mut Vec<String>) {
    for (_, x) in walk::direct(v) {
        post_order(x, out);
    }
    out.push(seen_of_value(v));
}

/// An inner transform that changes what the recursion then meets.
fn grow(s: &mut Value) {
    match s {
        Value::Bool(b) => {
            *s = json!({"x-was": *b, "allOf": [{"x-new": 1}]});
        }
        Value::Object(o) => {
            let k = o.get("x-hits").and_then(Value::as_u64).unwrap_or(0);
            o.insert("x-hits".into(), json!(k + 1));
            if o.contains_key("title") {
                o.insert("not".into(), json!({"x-grown": true}));
            }
            if o.contains_key("default") {
                o.remove("properties");
            }
        }
        _ => {}
    }
}
fn grow_schema(s: &mut Schema) {
    let mut v = s.clone().to_value();
    grow(&mut v);
    *s = schema(&v);
}
fn model_recursive(v: &mut Value, f: fn(&mut Value)) {
    f(v);
    each_direct(v, &mut |x| model_recursive(x, f));
}

pub fn c11(rep: &mut Report, r: &mut Rng) {
    let n = Report::scale(6000, 120000);
    for _ in 0..n {
        let depth = r.range(1, 4);
        let mut d = wild(r, depth, r.clone().chance(3, 4));
        let mut c = 0;
        number(&mut d, &mut c);
        let key = canon(&d);
        let direct: Vec<String> = walk::direct(&d).iter().map(|(_, x)| seen_of_value(x)).collect();
        rep.case(&key, direct.len() > 1);
        rep.add("direct_subschemas", direct.len() as u64);
        let bad = |rep: &mut Report, what: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| {
            rep.violation(what, &format!("{what}: got {got:?}, expected {want:?} on {}", cut(&key)), json!({"doc": d}));
        };
        // 1. direct traversal: a struct, a closure, a trait object
        let mut runs: Vec<(&str, Vec<String>, Schema)> = vec![];
        let res = guarded(|| {
            let mut s = schema(&d);
            let mut l = Logger(vec![]);
            transform_subschemas(&mut l, &mut s);
            runs.push(("struct", l.0, s));
            let mut s = schema(&d);
            let mut log = vec![];
            transform_subschemas(&mut |x: &mut Schema| log.push(seen_of(x)), &mut s);
            runs.push(("closure", log, s));
            let mut s = schema(&d);
            let mut l = Logger(vec![]);
            {
                let dynt: &mut dyn Transform = &mut l;
                transform_subschemas(dynt, &mut s);
            }
            runs.push(("dyn", l.0, s));
        });
        if let Err(e) = res {
            bad(rep, "traversal-panics", &e, &"no panic");
            continue;
        }
        for (how, log, after) in &runs {
            let (mut a, mut b) = (log.clone(), direct.clone());
            a.sort();
            b.sort();
            if a != b {
                bad(rep, &format!("direct-visits-{how}"), log, &direct);
            }
            if after.as_value() != &d || text(after.as_value()) != text(&d) {
                bad(rep, &format!("direct-changed-{how}"), &after.as_value(), &"unchanged document");
            }
            rep.add("visits", log.len() as u64);
        }
        // 2. recursion
        let (mut pre, mut post) = (vec![], vec![]);
        pre_order(&d, &mut pre);
        post_order(&d, &mut post);
        rep.add("schemas_in_tree", pre.len() as u64);
        let mut runs: Vec<(&str, Vec<String>, Schema, &Vec<String>)> = vec![];
        let res = guarded(|| {
            let mut s = schema(&d);
            let mut log = vec![];
            RecursiveTransform(|x: &mut Schema| log.push(seen_of(x))).transform(&mut s);
            runs.push(("recursive", log, s, &pre));
            let mut s = schema(&d);
            let mut l = Own { log: vec![], post: false };
            l.transform(&mut s);
            runs.push(("own-pre", l.log, s, &pre));
            let mut s = schema(&d);
            let mut l = Own { log: vec![], post: true };
            l.transform(&mut s);
            runs.push(("own-post", l.log, s, &post));
        });
        if let Err(e) = res {
            bad(rep, "recursion-panics", &e, &"no panic");
            continue;
        }
        for (how, log, after, want) in &runs {
            // every schema once; the order of siblings is free, the order along each path is not
            let (mut a, mut b) = (log.clone(), (*want).clone());
            a.sort();
            b.sort();
            if a != b {
                bad(rep, &format!("tree-visits-{how}"), log, want);
            } else if !ordered(&d, log, *how != "own-post") {
                bad(rep, &format!("tree-order-{how}"), log, want);
            }
            if after.as_value() != &d {
                bad(rep, &format!("tree-changed-{how}"), &after.as_value(), &"unchanged document");
            }
        }
        // 3. recursion over what the inner transform leaves behind
        let mut want = d.clone();
        model_recursive(&mut want, grow);
        let mut s = schema(&d);
        match guarded(|| RecursiveTransform(grow_schema).transform(&mut s)) {
            Ok(()) if canon(s.as_value()) == canon(&want) => {}
            Ok(()) => bad(rep, "recursive-mutation", &cut(&canon(s.as_value())), &cut(&canon(&want))),
            Err(e) => bad(rep, "recursive-mutation-panics", &e, &"no panic"),
        }
        // 4. mutating traversal: exactly the direct subschemas change
        let mut want = d.clone();
        each_direct(&mut want, &mut |x| grow(x));
        let mut s = schema(&d);
        match guarded(|| transform_subschemas(&mut grow_schema, &mut s)) {
            Ok(()) if canon(s.as_value()) == canon(&want) => {}
            Ok(()) => bad(rep, "direct-mutation", &cut(&canon(s.as_value())), &cut(&canon(&want))),
            Err(e) => bad(rep, "direct-mutation-panics", &e, &"no panic"),
        }
        rep.sample("document", || json!({"doc": d, "direct": direct.len(), "tree": pre.len()}));
    }
}

fn text(v: &Value) -> String {
    serde_json::to_string(v).unwrap()
}
fn cut(s: &str) -> String {
    s.chars().take(600).collect()
}

/// Are parents logged before (or after) their numbered descendants?
fn ordered(d: &Value, log: &[String], parents_first: bool) -> bool {
    let at: std::collections::HashMap<&str, usize> =
        log.iter().enumerate().filter(|(_, s)| s.parse::<u64>().is_ok()).map(|(i, s)| (s.as_str(), i)).collect();
    fn go(v: &Value, at: &std::collections::HashMap<&str, usize>, pf: bool) -> bool {
        let me = at.get(seen_of_value(v).as_str()).copied();
        walk::direct(v).iter().all(|(_, x)| {
            let them = at.get(seen_of_value(x).as_str()).copied();
            let ok = match (me, them) {
                (Some(a), Some(b)) => (a < b) == pf,
                _ => true,
            };
            ok && go(x, at, pf)
        })
    }
    go(d, &at, parents_first)
}

// ---------------------------------------------------------------------------------------------
// C12

#[derive(Clone, Copy, PartialEq)]
struct Cfg {
    refs: bool,
    /// 2020-12 vocabulary that draft-07 lacks and no transform replaces
    new: bool,
    prefix: bool,
    uneval: bool,
    nulls: bool,
    /// keywords whose presence at a schema decides what unevaluatedProperties sees
    simple_objects: bool,
}

pub fn inst(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 10 }) {
        0 => Value::Null,
        1 => Value::Bool(r.chance(1, 2)),
        2 => json!(r.below(6) as i64 - 2),
        3 => json!(*r.pick(&["", "a", "bb", "ccc", "b"])),
        4 => json!(1.5),
        5 => json!({}),
        6 => (0..r.below(4)).map(|_| inst(r, depth - 1)).collect(),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(5) {
                m.insert(r.pick(NAMES).to_string(), inst(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// `placed`: how many `$defs` entries may be referenced in place (no progress in the instance).
fn well(r: &mut Rng, depth: usize, c: Cfg, lowest: usize) -> Value {
    if depth == 0 || r.chance(1, 7) {
        return match r.below(7) {
            0 => json!(true),
            1 => json!(false),
            2 => json!({}),
            3 if c.nulls => json!({"type": "null"}),
            4 => json!({"const": inst(r, 2)}),
            _ => json!({"type": type_plain(r, c)}),
        };
    }
    let mut m = Map::new();
    for _ in 0..r.range(1, 4) {
        let sub = |r: &mut Rng| well(r, depth - 1, c, lowest);
        match r.below(23) {
            0 | 1 => {
                m.insert("type".into(), type_plain(r, c));
            }
            2 => {
                let v = inst(r, 2);
                if !only_null(&m) {
                    m.insert("const".into(), v);
                }
            }
            3 => {
                let mut a: Vec<Value> = (0..r.range(1, 4)).map(|_| inst(r, 1)).collect();
                if r.chance(1, 2) {
                    a.extend(m.get("const").cloned());
                }
                m.insert("enum".into(), dedup(a));
            }
            4 => {
                m.insert(["minimum", "maximum", "exclusiveMinimum", "multipleOf"][r.below(4)].into(), json!(r.range(1, 3)));
            }
            5 => {
                m.insert(["minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"][r.below(6)].into(), json!(r.below(3)));
            }
            6 | 7 | 8 => {
                let mut o = Map::new();
                for _ in 0..r.range(1, 3) {
                    let lo = if c.refs && r.chance(1, 4) { 0 } else { lowest };
                    o.insert(r.pick(NAMES).to_string(), well(r, depth - 1, c, lo));
                }
                m.insert("properties".into(), Value::Object(o));
            }
            9 => {
                let a: Vec<Value> = (0..r.range(1, 2)).map(|_| json!(*r.pick(NAMES))).collect();
                m.insert("required".into(), dedup(a));
            }
            10 if !c.simple_objects => {
                let x = sub(r);
                m.insert("additionalProperties".into(), x);
            }
            11 if !c.simple_objects => {
                let x = sub(r);
                m.insert("patternProperties".into(), json!({*r.pick(&["^a", "b", "/"]): x}));
            }
            12 => {
                let x = if r.chance(1, 2) { json!({"maxLength": r.range(1, 4)}) } else { sub(r) };
                m.insert("propertyNames".into(), x);
            }
            13 => {
                let x = sub(r);
                m.insert("items".into(), x);
            }
            14 if c.prefix => {
                let a: Vec<Value> = (0..r.range(1, 3)).map(|_| sub(r)).collect();
                m.insert("prefixItems".into(), a.into());
                if r.chance(1, 2) {
                    let rest = if r.chance(1, 2) { json!(false) } else { sub(r) };
                    m.insert("items".into(), rest);
                    m.entry("type").or_insert(json!("array"));
                }
            }
            15 => {
                let x = sub(r);
                m.insert("contains".into(), x);
                if c.new && r.chance(1, 3) {
                    m.insert("minContains".into(), json!(r.below(3)));
                }
            }
            16 | 17 => {
                let a: Vec<Value> = (0..r.range(1, 3)).map(|_| sub(r)).collect();
                m.insert(["allOf", "anyOf", "oneOf"][r.below(3)].into(), a.into());
            }
            18 => {
                let x = sub(r);
                m.insert("not".into(), x);
            }
            19 => {
                for k in ["if", "then", "else"] {
                    if k == "if" || r.chance(2, 3) {
                        let x = sub(r);
                        m.insert(k.into(), x);
                    }
                }
            }
            20 if c.new && !c.simple_objects => {
                let x = sub(r);
                m.insert("dependentSchemas".into(), json!({*r.pick(NAMES): x}));
            }
            21 => {
                let k = *r.pick(&["title", "description", "default", "examples", "deprecated", "format", "x-ext", "readOnly", "$comment"]);
                let v = match k {
                    "deprecated" | "readOnly" => json!(true),
                    "examples" => (0..r.below(3)).map(|_| bait(r, 3)).collect(),
                    "format" => json!(*r.pick(FORMATS)),
                    "default" | "x-ext" => bait(r, 3),
                    _ => json!("text"),
                };
                m.insert(k.into(), v);
            }
            22 if c.refs && lowest < 4 => {
                let i = r.range(lowest, 3);
                m.insert("$ref".into(), json!(format!("#/$defs/D{i}")));
            }
            _ => {}
        }
        // a null type next to another constant contradicts itself
        if only_null(&m) && m.get("const").is_some_and(|x| !x.is_null()) {
            m.remove("const");
        }
    }
    Value::Object(m)
}
fn only_null(m: &Map<String, Value>) -> bool {
    match m.get("type") {
        Some(Value::String(s)) => s == "null",
        Some(Value::Array(a)) => a.iter().all(|x| x == "null"),
        _ => false,
    }
}
fn dedup(a: Vec<Value>) -> Value {
    let mut out: Vec<Value> = vec![];
    for x in a {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    Value::Array(out)
}
fn type_plain(r: &mut Rng, c: Cfg) -> Value {
    loop {
        let t = type_value(r);
        let has_null = t == "null" || t.as_array().is_some_and(|a| a.iter().any(|x| x == "null"));
        if c.nulls || !has_null {
            return t;
        }
    }
}

/// Documents: random ones, and ones near what the schema talks about.
fn instances(r: &mut Rng, s: &Value, n: usize) -> Vec<Value> {
    let mut pool: Vec<Value> = vec![];
    walk::walk(s, &mut |_, x| {
        if let Some(v) = x.get("const") {
            pool.push(v.clone());
        }
        if let Some(Value::Array(a)) = x.get("enum") {
            pool.extend(a.iter().cloned());
        }
        for k in ["properties", "required", "dependentSchemas"] {
            match x.get(k) {
                Some(Value::Object(o)) => pool.extend(o.keys().map(|k| json!({ k: 1 }))),
                Some(Value::Array(a)) => pool.extend(a.iter().filter_map(Value::as_str).map(|k| json!({ k: null }))),
                _ => {}
            }
        }
    });
    let mut out = vec![json!(null), json!({}), json!([])];
    for _ in 0..n {
        if !pool.is_empty() && r.chance(1, 2) {
            let mut v = r.pick(&pool).clone();
            if r.chance(1, 3) {
                if let (Value::Object(a), Value::Object(b)) = (&mut v, r.pick(&pool).clone()) {
                    a.extend(b);
                }
            }
            match r.below(5) {
                0 => v = json!([v]),
                1 => {
                    let x = r.pick(&pool).clone();
                    v = json!([v, x]);
                }
                2 => {
                    if let Value::Object(o) = &mut v {
                        for (_, x) in o.iter_mut() {
                            *x = if r.chance(1, 2) { r.pick(&pool).clone() } else { inst(r, 2) };
                        }
                    }
                }
                _ => {}
            }
            out.push(v);
        } else {
            out.push(inst(r, 3));
        }
    }
    out
}

// ---- models, from the documentation of each transform
fn rec(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    // (children first or last makes no difference for these models)
    each_direct(v, &mut |x| rec(x, f));
    f(v);
}
fn m_bool(v: &mut Value, skip_ap: bool) {
    fn go(v: &mut Value, skip_ap: bool) {
        match v {
            Value::Bool(true) => *v = json!({}),
            Value::Bool(false) => *v = json!({"not": {}}),
            _ => {
                let keep = v.get("additionalProperties").filter(|x| skip_ap && x.is_boolean()).cloned();
                each_direct(v, &mut |x| go(x, skip_ap));
                if let Some(k) = keep {
                    v["additionalProperties"] = k;
                }
            }
        }
    }
    go(v, skip_ap);
}
fn m_ref(v: &mut Value, undefined: &mut bool) {
    rec(v, &mut |x| {
        if let Value::Object(o) = x {
            if o.len() > 1 {
                if let Some(rf) = o.remove("$ref") {
                    match o.entry("allOf").or_insert(json!([])) {
                        Value::Array(a) => a.push(json!({ "$ref": rf })),
                        _ => *undefined = true,
                    }
                }
            }
        }
    });
}
fn m_example(v: &mut Value, undefined: &mut bool) {
    rec(v, &mut |x| {
        if let Value::Object(o) = x {
            match o.remove("examples") {
                Some(Value::Array(a)) => {
                    if let Some(e) = a.into_iter().next() {
                        o.insert("example".into(), e);
                    }
                }
                Some(_) => *undefined = true,
                None => {}
            }
        }
    });
}
fn m_const(v: &mut Value) {
    rec(v, &mut |x| {
        if let Value::Object(o) = x {
            if let Some(c) = o.remove("const") {
                match o.get_mut("enum") {
                    Some(Value::Array(a)) => a.retain(|x| *x == c),
                    _ => {
                        o.insert("enum".into(), json!([c]));
                    }
                }
            }
        }
    });
}
fn m_prefix(v: &mut Value) {
    rec(v, &mut |x| {
        if let Value::Object(o) = x {
            if let Some(p) = o.remove("prefixItems") {
                if let Some(i) = o.insert("items".into(), p) {
                    o.insert("additionalItems".into(), i);
                }
            }
        }
    });
}
fn m_null(v: &mut Value, remove: bool, add_const: bool) {
    rec(v, &mut |x| {
        let Value::Object(o) = x else { return };
        let (null, other) = match o.get("type") {
            Some(Value::String(s)) => (s == "null", s != "null"),
            Some(Value::Array(a)) => (a.iter().any(|t| t == "null"), a.iter().any(|t| t != "null")),
            _ => return,
        };
        if !null {
            return;
        }
        o.insert("nullable".into(), json!(true));
        if !other {
            if add_const {
                o.insert("const".into(), Value::Null);
            }
            if remove {
                if add_const {
                    o.remove("type");
                } else {
                    o.insert("type".into(), json!([]));
                }
            }
        } else if remove {
            let Some(Value::Array(a)) = o.get_mut("type") else { unreachable!() };
            a.retain(|t| t != "null");
            if a.len() == 1 {
                let t = a[0].take();
                o.insert("type".into(), t);
            }
        }
    });
}
fn m_formats(v: &mut Value, infer: bool, allowed: &BTreeSet<String>) {
    const D7: &[&str] = &[
        "date-time", "date", "time", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uri", "uri-reference", "iri",
        "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "regex",
    ];
    fn go(v: &mut Value, meta: Option<bool>, infer: bool, allowed: &BTreeSet<String>) {
        let Value::Object(o) = v else { return };
        let meta = if !infer {
            None
        } else {
            match o.get("$schema").map(|s| s.as_str().unwrap_or("")) {
                None => meta,
                Some(s) if s == SCHEMAS[0] => Some(false),
                Some(s) if s == SCHEMAS[1] || s == SCHEMAS[2] => Some(true),
                Some(_) => None,
            }
        };
        if let Some(f) = o.get("format").and_then(Value::as_str) {
            let std = match meta {
                None => infer, // unknown version: nothing is removed
                Some(newer) => D7.contains(&f) || (newer && ["duration", "uuid"].contains(&f)),
            };
            if !std && !allowed.contains(f) {
                o.remove("format");
            }
        }
        each_direct(v, &mut |x| go(x, meta, infer, allowed));
    }
    go(v, None, infer, allowed);
}

fn applied(t: &mut dyn Transform, v: &Value) -> Result<Value, String> {
    let mut s = schema(v);
    guarded(|| t.transform(&mut s))?;
    Ok(s.to_value())
}

fn all_transforms(r: &mut Rng) -> Vec<(String, Box<dyn Transform>)> {
    let mut out: Vec<(String, Box<dyn Transform>)> = vec![];
    for skip in [false, true] {
        let mut t = ReplaceBoolSchemas::default();
        t.skip_additional_properties = skip;
        out.push((format!("ReplaceBoolSchemas/{skip}"), Box::new(t)));
    }
    out.push(("RemoveRefSiblings".into(), Box::new(RemoveRefSiblings::default())));
    out.push(("SetSingleExample".into(), Box::new(SetSingleExample::default())));
    out.push(("ReplaceConstValue".into(), Box::new(ReplaceConstValue::default())));
    out.push(("ReplacePrefixItems".into(), Box::new(ReplacePrefixItems::default())));
    for (a, b) in [(true, true), (true, false), (false, true), (false, false)] {
        let mut t = AddNullable::default();
        t.remove_null_type = a;
        t.add_const_null = b;
        out.push((format!("AddNullable/{a}/{b}"), Box::new(t)));
    }
    out.push(("ReplaceUnevaluatedProperties".into(), Box::new(ReplaceUnevaluatedProperties::default())));
    for infer in [true, false] {
        for n in [0, 3] {
            let mut t = RestrictFormats::default();
            t.infer_from_meta_schema = infer;
            for _ in 0..n {
                t.allowed_formats.insert((*r.pick(FORMATS)).into());
            }
            let al: Vec<&str> = t.allowed_formats.iter().map(|x| &**x).collect();
            out.push((format!("RestrictFormats/{infer}/{}", al.join(",")), Box::new(t)));
        }
    }
    out
}

/// (expected document, defined?) by the documentation.
fn model(name: &str, v: &Value) -> Option<(Value, bool)> {
    let mut m = v.clone();
    let mut undef = false;
    let parts: Vec<&str> = name.splitn(3, '/').collect();
    match parts[0] {
        "ReplaceBoolSchemas" => m_bool(&mut m, parts[1] == "true"),
        "RemoveRefSiblings" => m_ref(&mut m, &mut undef),
        "SetSingleExample" => m_example(&mut m, &mut undef),
        "ReplaceConstValue" => m_const(&mut m),
        "ReplacePrefixItems" => m_prefix(&mut m),
        "AddNullable" => m_null(&mut m, parts[1] == "true", parts[2] == "true"),
        "RestrictFormats" => m_formats(&mut m, parts[1] == "true", &parts[2].split(',').filter(|_| parts[2] != "").map(String::from).collect()),
        _ => return None,
    }
    Some((m, !undef))
}

/// The documented postcondition, checked on every schema of the tree; the offending pointer.
fn postcondition(name: &str, v: &Value) -> Option<String> {
    let base = name.split('/').next().unwrap();
    let skip_ap = name == "ReplaceBoolSchemas/true";
    let mut bad = None;
    walk::walk(v, &mut |p, s| {
        let viol = match base {
            "ReplaceBoolSchemas" => s.is_boolean() && !(skip_ap && p.ends_with("/additionalProperties")),
            "RemoveRefSiblings" => s.as_object().is_some_and(|o| o.contains_key("$ref") && o.len() > 1),
            "SetSingleExample" => s.get("examples").is_some(),
            "ReplaceConstValue" => s.get("const").is_some(),
            "ReplacePrefixItems" => s.get("prefixItems").is_some(),
            "ReplaceUnevaluatedProperties" => s.get("unevaluatedProperties").is_some(),
            "AddNullable" => {
                let null = match s.get("type") {
                    Some(Value::String(t)) => t == "null",
                    Some(Value::Array(a)) => a.iter().any(|t| t == "null"),
                    _ => false,
                };
                null && (name.starts_with("AddNullable/true") || s.get("nullable") != Some(&json!(true)))
            }
            _ => false,
        };
        if viol && bad.is_none() {
            bad = Some(p.to_string());
        }
    });
    bad
}

/// Where do two documents differ first?
fn diff(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()) {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => {
                        if let Some(d) = diff(p, q, &format!("{at}/{k}")) {
                            return Some(d);
                        }
                    }
                    (p, q) => return Some(format!("{at}/{k}: {p:?} vs {q:?}")),
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| diff(p, q, &format!("{at}/{i}")))
        }
        _ if a == b => None,
        _ => Some(format!("{at}: {a} vs {b}")),
    }
}

fn defs_root(r: &mut Rng, c: Cfg, depth: usize) -> Value {
    loop {
        let d = defs_root1(r, c, depth);
        // (the validator inlines references; many mutually recursive ones blow up)
        let (mut n, mut back) = (0, 0);
        walk::walk(&d, &mut |p, s| {
            if let Some(t) = s.get("$ref").and_then(Value::as_str) {
                n += 1;
                let from = p.strip_prefix("/$defs/D").and_then(|x| x.get(..1));
                let to = &t["#/$defs/D".len()..];
                back += from.is_some_and(|f| to <= f) as usize;
            }
        });
        if n <= 7 && back <= 1 {
            return d;
        }
    }
}
fn defs_root1(r: &mut Rng, c: Cfg, depth: usize) -> Value {
    let mut root = well(r, depth, c, 0);
    if c.refs {
        let mut defs = Map::new();
        for i in 0..4 {
            let d = well(r, 2, c, i + 1);
            // definitions are objects, as a generator's would be
            defs.insert(format!("D{i}"), if d.is_boolean() { json!({"allOf": [d]}) } else { d });
        }
        if root.is_boolean() {
            root = json!({ "allOf": [root] });
        }
        root["$defs"] = Value::Object(defs);
    }
    root
}

struct Cmp {
    same_true: u64,
    same_false: u64,
}
/// First document on which the two schemas disagree.
fn disagree(rep: &mut Report, c: &mut Cmp, a: &Value, da: Dia, b: &Value, db: Dia, docs: &[Value]) -> Option<(Value, bool, bool)> {
    let (va, vb) = (Eval::new(a, da), Eval::new(b, db));
    for d in docs {
        let (x, y) = match (va.is_valid(d), vb.is_valid(d)) {
            (Some(x), Some(y)) => (x, y),
            (Some(_), None) => {
                rep.violation("result-invalid", &format!("the transformed schema is not valid: {} from {}", cut(&text(b)), cut(&text(a))), json!({"before": a, "after": b}));
                return None;
            }
            (None, _) => {
                rep.inconclusive("a generated schema is not understood");
                return None;
            }
        };
        if x != y {
            return Some((d.clone(), x, y));
        }
        if x {
            c.same_true += 1
        } else {
            c.same_false += 1
        }
    }
    None
}

pub fn c12(rep: &mut Report, r: &mut Rng) {
    cross_check(rep, r);
    structure(rep, r);
    meaning(rep, r);
    unevaluated(rep, r);
    pipelines(rep, r);
}

/// The evaluator used here agrees with the jsonschema crate.
pub fn cross_check(rep: &mut Report, r: &mut Rng) {
    for i in 0..Report::scale(60, 150) {
        let uneval = i % 2 == 0;
        let dia = [Dia::D20, Dia::D19, Dia::D7][i % 3];
        let cfg = Cfg { refs: i % 4 == 0, new: dia != Dia::D7, prefix: dia == Dia::D20, uneval, nulls: true, simple_objects: false };
        let mut d = defs_root(r, cfg, 2);
        if let Value::Object(o) = &mut d {
            if uneval && dia != Dia::D7 {
                o.insert("unevaluatedProperties".into(), json!(false));
            }
        }
        let Ok(v) = compile(&d, dia) else { continue };
        let e = Eval::new(&d, dia);
        for doc in instances(r, &d, 15) {
            rep.count("evaluator_cross_checks");
            let (a, b) = (v.is_valid(&doc), e.is_valid(&doc));
            if b != Some(a) {
                rep.count("evaluator_disagreements");
                rep.inconclusive(format!("evaluators disagree ({dia:?}: crate {a}, own {b:?}) on {doc} for {}", cut(&text(&d))));
            }
        }
    }
}

fn structure(rep: &mut Report, r: &mut Rng) {
    let n = Report::scale(2500, 40000);
    for i in 0..n {
        let odd = i % 3 == 0;
        let depth = r.range(1, 4);
        let mut d = if i % 2 == 0 {
            wild(r, depth, odd)
        } else {
            defs_root(r, Cfg { refs: true, new: true, prefix: true, uneval: false, nulls: true, simple_objects: false }, depth)
        };
        if r.chance(1, 3) {
            if let Value::Object(o) = &mut d {
                let s = if r.chance(1, 5) { "http://unknown" } else { *r.pick(SCHEMAS) };
                o.insert("$schema".into(), json!(s));
            }
        }
        for (name, mut t) in all_transforms(r) {
            let base = name.split('/').next().unwrap().to_string();
            rep.case(&format!("{name}{}", canon(&d)), true);
            let got = match applied(&mut *t, &d) {
                Ok(g) => g,
                Err(e) => {
                    rep.violation(&format!("panic:{base}"), &format!("{name} panics ({e}) on {}", cut(&text(&d))), json!({"doc": d, "transform": name}));
                    continue;
                }
            };
            rep.count(if canon(&got) == canon(&d) { "left_unchanged" } else { "changed" });
            if let Some((want, true)) = model(&name, &d) {
                if !unclear(&name, &d) {
                    if let Some(df) = diff(&got, &want, "") {
                        rep.violation(&format!("result:{base}"), &format!("{name}: {df} (result vs documented) for {}", cut(&text(&d))), json!({"doc": d, "got": got, "want": want}));
                    }
                }
            }
            if base == "ReplacePrefixItems" && ill_prefix(&d) {
                continue;
            }
            if let Some(p) = postcondition(&name, &got) {
                rep.violation(&format!("postcondition:{base}"), &format!("{name}: not established at {p:?} for {}", cut(&text(&d))), json!({"doc": d, "got": got}));
            }
            match applied(&mut *t, &got) {
                Ok(again) => {
                    if let Some(df) = diff(&got, &again, "") {
                        rep.violation(&format!("idempotence:{base}"), &format!("{name} applied twice: {df} for {}", cut(&text(&d))), json!({"doc": d, "once": got, "twice": again}));
                    }
                }
                Err(e) => rep.violation(&format!("panic:{base}"), &format!("{name} panics ({e}) on its own result"), json!({"doc": got})),
            }
            if canon(&got) != canon(&d) {
                rep.sample(&base, || json!({"before": d, "after": got}));
            }
        }
    }
}

/// `prefixItems` that is not an array becomes a schema once it is called `items`.
fn ill_prefix(d: &Value) -> bool {
    let mut f = false;
    walk::walk(d, &mut |_, s| f |= s.get("prefixItems").is_some_and(|p| !p.is_array()));
    f
}

/// Ill-typed documents on which the documentation does not say what happens.
fn unclear(name: &str, d: &Value) -> bool {
    if name.starts_with("RestrictFormats/true") {
        // a known $schema below an unknown one
        fn go(v: &Value, under_unknown: bool) -> bool {
            let s = v.get("$schema").map(|s| s.as_str().is_some_and(|s| SCHEMAS.contains(&s)));
            if under_unknown && s == Some(true) {
                return true;
            }
            let u = under_unknown || s == Some(false);
            walk::direct(v).iter().any(|(_, x)| go(x, u))
        }
        return go(d, false);
    }
    false
}

fn meaning(rep: &mut Report, r: &mut Rng) {
    let n = Report::scale(1500, 30000);
    let mut c = Cmp { same_true: 0, same_false: 0 };
    for _ in 0..n {
        let depth = r.range(1, 3);
        let new = r.chance(1, 2);
        let cfg = Cfg { refs: r.chance(2, 3), new, prefix: true, uneval: false, nulls: true, simple_objects: false };
        let d = defs_root(r, cfg, depth);
        let docs = instances(r, &d, 12);
        for (name, mut t) in all_transforms(r) {
            let base = name.split('/').next().unwrap().to_string();
            let (da, db, pre): (Dia, Dia, bool) = match base.as_str() {
                "ReplacePrefixItems" => (Dia::D20, Dia::D19, true),
                "AddNullable" => {
                    if has(&d, "prefixItems") || has(&d, "dependentSchemas") || has(&d, "minContains") || ref_siblings(&d) {
                        continue;
                    }
                    (Dia::D7, Dia::OA3, false)
                }
                "ReplaceUnevaluatedProperties" => continue,
                _ => (Dia::D20, Dia::D20, false),
            };
            let _ = pre;
            let Ok(got) = applied(&mut *t, &d) else { continue };
            let changed = canon(&got) != canon(&d);
            rep.case(&format!("meaning {name} {}", canon(&d)), changed);
            if !changed && da == db {
                continue;
            }
            // definitions are addressed by `#/$defs/..` in all of them
            if let Some((doc, a, b)) = disagree(rep, &mut c, &d, da, &got, db, &docs) {
                rep.violation(
                    &format!("meaning:{base}"),
                    &format!("{name} changes the verdict on {doc} from {a} to {b}: {} became {}", cut(&text(&d)), cut(&text(&got))),
                    json!({"before": d, "after": got, "doc": doc}),
                );
            }
        }
    }
    rep.add("verdicts_both_accept", c.same_true);
    rep.add("verdicts_both_reject", c.same_false);
}
fn has(d: &Value, k: &str) -> bool {
    let mut f = false;
    walk::walk(d, &mut |_, s| f |= s.get(k).is_some());
    f
}
fn ref_siblings(d: &Value) -> bool {
    let mut f = false;
    walk::walk(d, &mut |_, s| f |= s.as_object().is_some_and(|o| o.contains_key("$ref") && o.len() > 1));
    f
}

/// `unevaluatedProperties` has no draft-07 equivalent; the documented approximation never rejects
/// more, and is exact for members that no subschema names.
fn unevaluated(rep: &mut Report, r: &mut Rng) {
    let n = Report::scale(1500, 30000);
    let cfg = Cfg { refs: false, new: false, prefix: false, uneval: true, nulls: true, simple_objects: true };
    let (mut same, mut wider) = (0u64, 0u64);
    for _ in 0..n {
        let mut d = well(r, 2, cfg, 9);
        let Value::Object(o) = &mut d else { continue };
        let ty = if r.chance(1, 2) { json!("object") } else { json!(["object", "null"]) };
        for k in ["type", "const", "enum", "minItems", "minLength"] {
            o.remove(k);
        }
        o.insert("type".into(), ty);
        o.insert("unevaluatedProperties".into(), if r.chance(1, 2) { json!(false) } else { json!({"type": *r.pick(&["string", "integer", "null"])}) });
        let with_ap = r.chance(1, 6);
        if with_ap {
            o.insert("additionalProperties".into(), if r.chance(1, 2) { json!({"type": "integer"}) } else { json!(true) });
        }
        if r.chance(1, 3) {
            // alternatives that name members, as flattened enums produce
            let mut alts = vec![];
            for _ in 0..r.range(1, 3) {
                let k = *r.pick(NAMES);
                alts.push(json!({"type": "object", "properties": {k: {"type": "string"}}, "required": [k]}));
            }
            o.insert("oneOf".into(), Value::Array(alts));
        }
        let Ok(got) = applied(&mut ReplaceUnevaluatedProperties::default(), &d) else { continue };
        rep.case(&format!("uneval {}", canon(&d)), true);
        let (va, vb) = (Eval::new(&d, Dia::D20), Eval::new(&got, Dia::D7));
        let mut named = BTreeSet::new();
        immediate_names(&d, false, &mut named);
        let mut docs = instances(r, &d, 10);
        for _ in 0..6 {
            let mut m = Map::new();
            for _ in 0..r.range(1, 4) {
                m.insert(r.pick(NAMES).to_string(), if r.chance(1, 2) { json!("s") } else { inst(r, 1) });
            }
            docs.push(Value::Object(m));
        }
        for doc in docs {
            let (Some(a), Some(b)) = (va.is_valid(&doc), vb.is_valid(&doc)) else {
                rep.violation("result-invalid", &format!("not understood: {}", cut(&text(&got))), json!({"before": d, "after": got}));
                break;
            };
            let free = with_ap || doc.as_object().map_or(true, |o| o.keys().all(|k| !named.contains(k)));
            if (a && !b) || (free && a != b) {
                rep.violation(
                    "meaning:ReplaceUnevaluatedProperties",
                    &format!("verdict on {doc} changes from {a} to {b}: {} became {}", cut(&text(&d)), cut(&text(&got))),
                    json!({"before": d, "after": got, "doc": doc}),
                );
            }
            if a == b {
                same += 1
            } else {
                wider += 1
            }
        }
        if let Some(p) = postcondition("ReplaceUnevaluatedProperties", &got) {
            rep.violation("postcondition:ReplaceUnevaluatedProperties", &format!("left at {p:?}: {}", cut(&text(&d))), json!({"before": d, "after": got}));
        }
        rep.sample("uneval", || json!({"before": d, "after": got}));
    }
    rep.add("unevaluated_same_verdict", same);
    rep.add("unevaluated_wider", wider);
}
/// Names of members that a subschema applied in place mentions.
fn immediate_names(v: &Value, me: bool, out: &mut BTreeSet<String>) {
    if me {
        if let Some(Value::Object(o)) = v.get("properties") {
            out.extend(o.keys().cloned());
        }
    }
    for (p, x) in walk::direct(v) {
        let k = p.split('/').nth(1).unwrap();
        if ["allOf", "anyOf", "oneOf", "if", "then", "else", "not", "dependentSchemas"].contains(&k) {
            immediate_names(x, true, out);
        }
    }
}

// ---- whole pipelines: a type with a random schema under every settings object
thread_local!(static DOC: RefCell<(Value, String)> = RefCell::new((Value::Null, String::new())));
struct Def<const I: usize>;
fn placed(v: &Value) -> Schema {
    let path = DOC.with(|d| d.borrow().1.clone());
    fn go(v: &mut Value, path: &str) {
        if let Some(Value::String(s)) = v.get_mut("$ref") {
            *s = s.replace("#/$defs/", path);
        }
        each_direct(v, &mut |x| go(x, path));
    }
    let mut v = v.clone();
    go(&mut v, &path);
    schema(&v)
}
impl<const I: usize> JsonSchema for Def<I> {
    fn schema_name() -> Cow<'static, str> {
        format!("D{I}").into()
    }
    fn schema_id() -> Cow<'static, str> {
        format!("def{I}").into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        placed(&DOC.with(|d| d.borrow().0["$defs"][format!("D{I}")].clone()))
    }
}
struct Top;
impl JsonSchema for Top {
    fn schema_name() -> Cow<'static, str> {
        "Top".into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let refs = [g.subschema_for::<Def<0>>(), g.subschema_for::<Def<1>>(), g.subschema_for::<Def<2>>(), g.subschema_for::<Def<3>>()];
        let base = refs[0].get("$ref").and_then(Value::as_str).expect("a reference").trim_end_matches("D0").to_string();
        DOC.with(|d| d.borrow_mut().1 = base);
        let mut v = DOC.with(|d| d.borrow().0.clone());
        v.as_object_mut().unwrap().remove("$defs");
        placed(&v)
    }
}
/// C09, for types whose schema is written by hand.
pub fn c09(rep: &mut Report, r: &mut Rng) {
    pipelines(rep, r);
}
fn pipelines(rep: &mut Report, r: &mut Rng) {
    let n = Report::scale(900, 15000);
    let mut c = Cmp { same_true: 0, same_false: 0 };
    for _ in 0..n {
        let depth = r.range(1, 3);
        let cfg = Cfg { refs: true, new: false, prefix: true, uneval: false, nulls: true, simple_objects: false };
        let d = defs_root(r, cfg, depth);
        let docs = instances(r, &d, 12);
        for (dia, name, st) in [
            (Dia::D20, "draft2020-12", SchemaSettings::draft2020_12()),
            (Dia::D19, "draft2019-09", SchemaSettings::draft2019_09()),
            (Dia::D7, "draft07", SchemaSettings::draft07()),
            (Dia::OA3, "openapi3", openapi_fixed()),
        ] {
            // references are known only once a generator made them: definitions are built after the path is known
            let path = format!("#{}/", st.definitions_path.trim_start_matches('#').trim_end_matches('/'));
            DOC.with(|x| *x.borrow_mut() = (d.clone(), path));
            let got = match guarded(|| st.into_generator().into_root_schema_for::<Top>().to_value()) {
                Ok(g) => g,
                Err(e) => {
                    rep.violation(&format!("pipeline-panic:{name}"), &format!("{name} panics ({e}) on {}", cut(&text(&d))), json!({"doc": d}));
                    continue;
                }
            };
            rep.case(&format!("pipeline {name} {}", canon(&d)), true);
            if let Some((doc, a, b)) = disagree(rep, &mut c, &d, Dia::D20, &got, dia, &docs) {
                rep.violation(
                    &format!("pipeline-meaning:{name}"),
                    &format!("{name} settings change the verdict on {doc} from {a} to {b}: {} became {}", cut(&text(&d)), cut(&text(&got))),
                    json!({"before": d, "after": got, "doc": doc}),
                );
            }
            let mut p = vec![];
            crate::dialect::forms(&got, dia, &mut p);
            p.retain(|x| !x.contains("keyword examples") || dia == Dia::OA3);
            if let Some(x) = p.first().filter(|_| rep.prop == "C12") {
                rep.violation(&format!("pipeline-form:{name}"), &format!("{name}: {x} in {}", cut(&text(&got))), json!({"before": d, "after": got}));
            }
            rep.sample(name, || json!({"before": d, "after": got}));
        }
    }
    rep.add("pipeline_both_accept", c.same_true);
    rep.add("pipeline_both_reject", c.same_false);
}
