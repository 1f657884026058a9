//! C13 (schema values), C14 (pointers and reference names) and C15 (schemas from values).
use crate::val::{compile, Dia, DIALECTS};
use crate::{canon, dialect, guarded, transforms, walk, world, Report, Rng};
use schemars::Schema;
use serde::de::{Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Serialize, Serializer};
use serde_json::{json, Map, Value};
use std::fmt;

fn cut(s: &str) -> String {
    s.chars().take(500).collect()
}

// ---- JSON text read without merging equal keys
#[derive(Debug)]
pub enum J {
    Leaf,
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl<'de> Deserialize<'de> for J {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<J, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = J;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("json")
            }
            fn visit_bool<E>(self, _: bool) -> Result<J, E> {
                Ok(J::Leaf)
            }
            fn visit_u64<E>(self, _: u64) -> Result<J, E> {
                Ok(J::Leaf)
            }
            fn visit_i64<E>(self, _: i64) -> Result<J, E> {
                Ok(J::Leaf)
            }
            fn visit_f64<E>(self, _: f64) -> Result<J, E> {
                Ok(J::Leaf)
            }
            fn visit_str<E>(self, _: &str) -> Result<J, E> {
                Ok(J::Leaf)
            }
            fn visit_unit<E>(self) -> Result<J, E> {
                Ok(J::Leaf)
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(J::Arr(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(J::Obj(v))
            }
        }
        d.deserialize_any(V)
    }
}
/// Same tree of keys, every key exactly once.
fn one_to_one(j: &J, v: &Value, at: &str) -> Result<(), String> {
    match (j, v) {
        (J::Obj(a), Value::Object(o)) => {
            if a.len() != o.len() {
                return Err(format!("{at}: {} keys printed for {}", a.len(), o.len()));
            }
            for (k, x) in a {
                one_to_one(x, o.get(k).ok_or_else(|| format!("{at}: key {k:?} invented"))?, &format!("{at}/{k}"))?;
            }
            Ok(())
        }
        (J::Arr(a), Value::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().try_for_each(|(i, (x, y))| one_to_one(x, y, &format!("{at}/{i}"))),
        (J::Leaf, v) if !v.is_array() && !v.is_object() => Ok(()),
        _ => Err(format!("{at}: shape differs")),
    }
}
const START: &[&str] = &["$id", "$schema", "title", "description", "type", "format", "properties"];
const END: &[&str] = &["$defs", "definitions"];
/// Documented keyword order of one schema object: the well-known first and last keywords, all
/// others in the order of the map.
fn expected_keys(o: &Map<String, Value>) -> Vec<String> {
    let mut v: Vec<String> = START.iter().filter(|k| o.contains_key(**k)).map(|k| k.to_string()).collect();
    v.extend(o.keys().filter(|k| !START.contains(&k.as_str()) && !END.contains(&k.as_str())).cloned());
    v.extend(END.iter().filter(|k| o.contains_key(**k)).map(|k| k.to_string()));
    v
}
pub fn keyword_order(j: &J, v: &Value, at: &str) -> Result<(), String> {
    let (J::Obj(a), Value::Object(o)) = (j, v) else { return Ok(()) };
    let got: Vec<String> = a.iter().map(|(k, _)| k.clone()).collect();
    let want = expected_keys(o);
    if got != want {
        return Err(format!("{at}: keywords printed as {got:?}, documented order {want:?}"));
    }
    // member maps keep their own order; nested schemas follow the same rule
    for (k, x) in a {
        let y = &o[k];
        if walk::MAPS.contains(&k.as_str()) {
            if let (J::Obj(a), Value::Object(o)) = (x, y) {
                let got: Vec<&String> = a.iter().map(|(k, _)| k).collect();
                let want: Vec<&String> = o.keys().collect();
                if got != want {
                    return Err(format!("{at}/{k}: members printed as {got:?}, map order {want:?}"));
                }
                for (n, x) in a {
                    keyword_order(x, &o[n], &format!("{at}/{k}/{n}"))?;
                }
            }
        } else if walk::SINGLE.contains(&k.as_str()) || (k == "items" && y.is_object()) {
            keyword_order(x, y, &format!("{at}/{k}"))?;
        } else if walk::ARRAYS.contains(&k.as_str()) || k == "items" {
            if let (J::Arr(a), Value::Array(b)) = (x, y) {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    keyword_order(x, y, &format!("{at}/{k}/{i}"))?;
                }
            }
        } else if k == "examples" || k == "default" || k.starts_with("x-") {
            data_order(x, y, &format!("{at}/{k}"))?;
        }
    }
    Ok(())
}
fn data_order(j: &J, v: &Value, at: &str) -> Result<(), String> {
    match (j, v) {
        (J::Obj(a), Value::Object(o)) => {
            let got: Vec<&String> = a.iter().map(|(k, _)| k).collect();
            let want: Vec<&String> = o.keys().collect();
            if got != want {
                return Err(format!("{at}: data printed as {got:?}, map order {want:?}"));
            }
            a.iter().try_for_each(|(k, x)| data_order(x, &o[k], at))
        }
        (J::Arr(a), Value::Array(b)) => a.iter().zip(b).try_for_each(|(x, y)| data_order(x, y, at)),
        _ => Ok(()),
    }
}
pub fn parse_j(t: &str) -> Result<J, String> {
    serde_json::from_str(t).map_err(|e| e.to_string())
}

fn number(r: &mut Rng) -> Value {
    match r.below(10) {
        0 => json!(0),
        1 => json!(-1),
        2 => json!(u64::MAX),
        3 => json!(i64::MIN),
        4 => json!(1.0),
        5 => json!(-0.0),
        6 => json!(5e-324),
        7 => json!(1e300),
        8 => json!(0.1),
        _ => json!(r.next() as i64),
    }
}
fn anykey(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        let all: Vec<&str> = START.iter().chain(END).chain(walk::SINGLE).chain(walk::MAPS).chain(walk::ARRAYS).copied().chain(["items", "const", "enum", "default", "examples", "x-a", "$ref"]).collect();
        return r.pick(&all).to_string();
    }
    let n = r.below(5);
    (0..n).map(|_| world::random_char(r)).collect()
}
fn anyjson(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 | 3 => number(r),
        4 => json!(anykey(r)),
        5 => (0..r.below(4)).map(|_| anyjson(r, depth - 1)).collect(),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(5) {
                m.insert(anykey(r), anyjson(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

pub fn c13(rep: &mut Report, r: &mut Rng) {
    for i in 0..Report::scale(6000, 150000) {
        let v = match i % 4 {
            0 | 1 => anyjson(r, 4),
            2 => transforms::wild(r, 4, true),
            _ => transforms::bait(r, 4),
        };
        // random key order in objects
        let v = shuffled(&v, r);
        rep.case(&serde_json::to_string(&v).unwrap(), v.is_object() || v.is_boolean());
        if i % 40 == 0 {
            rep.count("macro_checks");
            if let Err((sig, e)) = guarded(|| macro_checks(r)).unwrap_or_else(|e| Err(("panic".into(), e))) {
                rep.violation(&sig, &e, json!({"macro": "json_schema"}));
            }
        }
        if let Err((sig, e)) = guarded(|| value_checks(&v, r)).unwrap_or_else(|e| Err(("panic".into(), e))) {
            rep.violation(&sig, &format!("{e} for {}", cut(&v.to_string())), json!({"value": v}));
        }
        rep.count(if v.is_object() || v.is_boolean() { "schemas" } else { "non_schemas" });
        if v.is_object() || v.is_boolean() {
            let other = if r.chance(1, 2) { tweak(&v, r) } else { anyjson(r, 2) };
            if let Err((sig, e)) = guarded(|| equality(&v, &other)).unwrap_or_else(|e| Err(("panic".into(), e))) {
                rep.violation(&sig, &format!("{e} for {} and {}", cut(&v.to_string()), cut(&other.to_string())), json!({"a": v, "b": other}));
            }
            let mut log = vec![];
            let res = guarded(|| edits(&v, r, &mut log));
            rep.add("edits", log.len() as u64);
            match res {
                Ok(Ok(())) => {}
                Ok(Err(e)) => rep.violation("edit", &format!("{e} after {log:?} on {}", cut(&v.to_string())), json!({"value": v, "edits": log})),
                Err(e) => rep.violation("edit-panic", &format!("panic {e} after {log:?} on {}", cut(&v.to_string())), json!({"value": v, "edits": log})),
            }
            rep.sample("schema", || json!({"value": v, "edits": log}));
        }
    }
}
/// `json_schema!` gives the JSON written in it.
fn macro_checks(r: &mut Rng) -> Result<(), (String, String)> {
    let a = anyjson(r, 2);
    let (k, s, n) = (anykey(r), anykey(r), number(r));
    macro_rules! same {
        ($($t:tt)+) => {
            let (got, want): (Schema, Value) = (schemars::json_schema!($($t)+), json!($($t)+));
            if *got.as_value() != want || got != want {
                return Err(("macro".into(), format!("json_schema!({}) is {got:?}, expected {want}", stringify!($($t)+))));
            }
        };
    }
    same!(true);
    same!(false);
    same!({});
    same!({"type": "null"});
    same!({"type": ["string", "null"], "minLength": 1, "x": -2.5, "y": null, "z": true});
    same!({"a": a, "b": [n, s.as_str(), [], {}], "properties": {(k.clone()): {"const": a}, "not": false}});
    same!({(k.clone()): n, "items": {"enum": [1, "b", null, a, {"c": [true, false]}]}, "last": {"$ref": s.as_str()},});
    Ok(())
}
fn shuffled(v: &Value, r: &mut Rng) -> Value {
    match v {
        Value::Object(o) => {
            let mut e: Vec<(String, Value)> = o.iter().map(|(k, x)| (k.clone(), shuffled(x, r))).collect();
            r.shuffle(&mut e);
            Value::Object(e.into_iter().collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| shuffled(x, r)).collect()),
        _ => v.clone(),
    }
}
/// A value that may or may not equal the given one.
fn tweak(v: &Value, r: &mut Rng) -> Value {
    match v {
        Value::Object(o) => {
            let mut o = o.clone();
            match r.below(4) {
                0 => {}
                1 => {
                    if let Some(k) = o.keys().next().cloned() {
                        o.remove(&k);
                    }
                }
                2 => {
                    o.insert(anykey(r), Value::Null);
                }
                _ => {
                    if let Some((_, x)) = o.iter_mut().last() {
                        *x = tweak(x, r);
                    }
                }
            }
            shuffled(&Value::Object(o), r)
        }
        Value::Bool(b) => json!(r.chance(1, 2) == *b),
        Value::Number(n) if n.is_u64() => json!(n.as_u64().unwrap() as f64),
        Value::Array(a) => {
            let mut a = a.clone();
            a.reverse();
            Value::Array(a)
        }
        _ => v.clone(),
    }
}
type Res = Result<(), (String, String)>;
fn fail<T>(sig: &str, e: impl Into<String>) -> Result<T, (String, String)> {
    Err((sig.to_string(), e.into()))
}
fn value_checks(v: &Value, r: &mut Rng) -> Res {
    let ok = v.is_object() || v.is_boolean();
    let text = serde_json::to_string(v).unwrap();
    let same = |how: &str, s: Option<Value>| -> Res {
        match s {
            Some(_) if !ok => fail(&format!("accepts:{how}"), format!("{how} accepts a value that is neither a boolean nor an object")),
            None if ok => fail(&format!("refuses:{how}"), format!("{how} refuses a schema")),
            Some(x) if &x != v || serde_json::to_string(&x).unwrap() != text => fail(&format!("changes:{how}"), format!("{how} changes the value to {x}")),
            _ => Ok(()),
        }
    };
    same("try_from(Value)", Schema::try_from(v.clone()).ok().map(Schema::to_value))?;
    same("try_from(&Value)", <&Schema>::try_from(v).ok().map(|s| s.as_value().clone()))?;
    let mut m = v.clone();
    same("try_from(&mut Value)", <&mut Schema>::try_from(&mut m).ok().map(|s| s.as_value().clone()))?;
    if serde_json::to_string(&m).unwrap() != text {
        return fail("mut-ref-changes", "try_from(&mut Value) changed the value");
    }
    same("from_value", serde_json::from_value::<Schema>(v.clone()).ok().map(Schema::to_value))?;
    same("from_str", serde_json::from_str::<Schema>(&text).ok().map(Schema::to_value))?;
    same("from_reader", serde_json::from_reader::<_, Schema>(text.as_bytes()).ok().map(Schema::to_value))?;
    same("deserialize(&Value)", Schema::deserialize(v).ok().map(Schema::to_value))?;
    same("vec", serde_json::from_str::<Vec<Schema>>(&format!("[{text}]")).ok().map(|mut x| x.remove(0).to_value()))?;
    if let Value::Object(o) = v {
        same("From<Map>", Some(Schema::from(o.clone()).to_value()))?;
    }
    if let Value::Bool(b) = v {
        same("From<bool>", Some(Schema::from(*b).to_value()))?;
    }
    // deserializers that are not serde_json's
    let e: Result<Schema, serde::de::value::Error> = match v {
        Value::Bool(b) => Schema::deserialize((*b).into_deserializer()),
        Value::String(s) => Schema::deserialize(s.as_str().into_deserializer()),
        Value::Number(n) if n.is_u64() => Schema::deserialize(n.as_u64().unwrap().into_deserializer()),
        Value::Null => Schema::deserialize(().into_deserializer()),
        Value::Object(o) if o.values().all(|x| x.is_u64()) => {
            let d: serde::de::value::MapDeserializer<_, serde::de::value::Error> =
                serde::de::value::MapDeserializer::new(o.iter().map(|(k, x)| (k.clone(), x.as_u64().unwrap())));
            Schema::deserialize(d)
        }
        _ => return printing(v, ok, r),
    };
    same("foreign deserializer", e.ok().map(Schema::to_value))?;
    printing(v, ok, r)
}
fn printing(v: &Value, ok: bool, r: &mut Rng) -> Res {
    if !ok {
        return Ok(());
    }
    let s = Schema::try_from(v.clone()).unwrap();
    if Value::from(s.clone()) != *v || s.clone().to_value() != *v || s.as_value() != v {
        return fail("to-value", "conversion to Value loses something");
    }
    if s.as_bool() != v.as_bool() || s.as_object() != v.as_object() {
        return fail("accessor", "as_bool/as_object disagree with the value");
    }
    match serde_json::to_value(&s) {
        Ok(x) if x == *v => {}
        x => return fail("serialize-value", format!("serializing to a Value gives {x:?}")),
    }
    for (how, t) in [("to_string", serde_json::to_string(&s)), ("to_string_pretty", serde_json::to_string_pretty(&s)), ("to_vec", serde_json::to_vec(&s).map(|b| String::from_utf8(b).unwrap()))] {
        let t = t.map_err(|e| ("print".to_string(), e.to_string()))?;
        let back: Value = serde_json::from_str(&t).map_err(|e| ("print".to_string(), format!("{how} prints invalid JSON: {e}")))?;
        if back != *v {
            return fail("print-lossy", format!("{how} prints {}", cut(&t)));
        }
        let j = parse_j(&t).map_err(|e| ("print".to_string(), e))?;
        one_to_one(&j, v, "").map_err(|e| ("print-keys".to_string(), format!("{how}: {e}")))?;
        keyword_order(&j, v, "").map_err(|e| ("print-order".to_string(), format!("{how}: {e}")))?;
    }
    let again: Schema = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    if again != s {
        return fail("round-trip", "reading back the printed schema gives a different one");
    }
    // promotion of booleans
    let mut e = s.clone();
    let o = e.ensure_object().clone();
    match v {
        Value::Object(m) if m != &o => return fail("ensure_object", "ensure_object changes an object"),
        Value::Bool(b) => {
            let val = compile(&Value::Object(o.clone()), Dia::D20).map_err(|e| ("ensure_object".to_string(), e))?;
            for _ in 0..3 {
                let d = anyjson(r, 2);
                if val.is_valid(&d) != *b {
                    return fail("ensure_object", format!("{b} promoted to {}", Value::Object(o)));
                }
            }
        }
        _ => {}
    }
    if e.as_object() != Some(&o) || e.as_bool().is_some() {
        return fail("ensure_object", "accessors disagree after ensure_object");
    }
    Ok(())
}
fn equality(a: &Value, b: &Value) -> Res {
    let s = Schema::try_from(a.clone()).unwrap();
    let eq = a == b;
    let mut got = vec![("Schema == Value", s == *b), ("Value == Schema", *b == s)];
    match b {
        Value::Bool(x) => got.extend([("Schema == bool", s == *x), ("bool == Schema", *x == s)]),
        Value::Object(m) => got.extend([("Schema == Map", s == *m), ("Map == Schema", *m == s)]),
        _ => {}
    }
    if let Ok(t) = Schema::try_from(b.clone()) {
        got.push(("Schema == Schema", s == t));
        got.push(("Schema != Schema", !(s != t)));
    }
    for x in [true, false] {
        if (s == x) != (*a == Value::Bool(x)) || (x == s) != (*a == Value::Bool(x)) {
            return fail("eq-bool", format!("comparison with {x}"));
        }
    }
    for (how, g) in got {
        if g != eq {
            return fail("eq", format!("{how} is {g}, JSON equality is {eq}"));
        }
    }
    Ok(())
}
/// A random editing history next to a shadow map.
fn edits(v: &Value, r: &mut Rng, log: &mut Vec<String>) -> Result<(), String> {
    let mut s = Schema::try_from(v.clone()).unwrap();
    let mut shadow = v.clone();
    let promote = |x: &mut Value| {
        if let Value::Bool(b) = x {
            *x = if *b { json!({}) } else { json!({"not": {}}) };
        }
    };
    for _ in 0..r.range(1, 10) {
        let keys: Vec<String> = shadow.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
        let k = if !keys.is_empty() && r.chance(2, 3) { r.pick(&keys).clone() } else { anykey(r) };
        let op = r.below(8);
        log.push(format!("{op} {k:?}"));
        match op {
            0 | 1 => {
                let x = anyjson(r, 2);
                let got = s.insert(k.clone(), x.clone());
                promote(&mut shadow);
                let want = shadow.as_object_mut().unwrap().insert(k.clone(), x);
                if got != want {
                    return Err(format!("insert({k:?}) returned {got:?}, expected {want:?}"));
                }
            }
            2 => {
                let got = s.remove(&k);
                let want = shadow.as_object_mut().and_then(|o| o.remove(&k));
                if got != want {
                    return Err(format!("remove({k:?}) returned {got:?}, expected {want:?}"));
                }
            }
            3 => {
                let got = s.get(k.as_str()).cloned();
                let want = shadow.as_object().and_then(|o| o.get(&k)).cloned();
                if got != want {
                    return Err(format!("get({k:?}) returned {got:?}, expected {want:?}"));
                }
            }
            4 => {
                let x = anyjson(r, 1);
                let a = s.get_mut(&k).map(|p| std::mem::replace(p, x.clone()));
                let b = shadow.as_object_mut().and_then(|o| o.get_mut(&k)).map(|p| std::mem::replace(p, x));
                if a != b {
                    return Err(format!("get_mut({k:?}) returned {a:?}, expected {b:?}"));
                }
            }
            5 => {
                s.ensure_object();
                promote(&mut shadow);
            }
            6 => {
                let a = s.as_object_mut().map(|o| o.retain(|q, _| q != &k)).is_some();
                let b = shadow.as_object_mut().map(|o| o.retain(|q, _| q != &k)).is_some();
                if a != b {
                    return Err("as_object_mut disagrees".into());
                }
            }
            _ => {
                s = s.clone();
            }
        }
        if s.as_value() != &shadow {
            return Err(format!("the schema is {}, expected {}", cut(&s.as_value().to_string()), cut(&shadow.to_string())));
        }
        if !(s.as_value().is_object() || s.as_value().is_boolean()) {
            return Err("not a schema any more".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- C14
fn locations(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                locations(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                locations(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn pct(s: &str, r: &mut Rng, mode: usize) -> String {
    let mut out = String::new();
    for c in s.chars() {
        let plain_ok = c.is_ascii() && walk::valid_fragment(&c.to_string());
        let enc = match mode {
            0 => !plain_ok,            // minimal
            1 => true,                 // everything
            2 => !plain_ok || r.chance(1, 3),
            _ => c == '%',             // unencoded apart from the escape character itself
        };
        if enc {
            let mut b = [0; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                out.push_str(&if r.chance(1, 2) { format!("%{x:02X}") } else { format!("%{x:02x}") });
            }
        } else {
            out.push(c);
        }
    }
    out
}
fn valid_escapes(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).all(|i| b[i] != b'~' || matches!(b.get(i + 1), Some(b'0' | b'1')))
}
fn spec_lookup<'a>(v: &'a Value, p: &str) -> Option<Option<&'a Value>> {
    let dec = match p.strip_prefix('#') {
        Some(f) => match walk::pct_decode(f) {
            Some(d) => d,
            None => return Some(None),
        },
        None => p.to_string(),
    };
    if !valid_escapes(&dec) {
        return None; // not a JSON pointer
    }
    if dec.is_empty() {
        return Some(Some(v));
    }
    let Some(rest) = dec.strip_prefix('/') else { return Some(None) };
    let toks: Vec<String> = rest.split('/').map(|t| t.replace("~1", "/").replace("~0", "~")).collect();
    Some(walk::lookup(v, &toks))
}

pub fn c14(rep: &mut Report, r: &mut Rng) {
    for _ in 0..Report::scale(2500, 60000) {
        let mut v = anyjson(r, 4);
        if !v.is_object() {
            v = json!({anykey(r): v, anykey(r): anyjson(r, 2)});
        }
        let mut locs = vec![];
        locations(&v, &mut vec![], &mut locs);
        rep.case(&canon(&v), locs.len() > 1);
        let s = Schema::try_from(v.clone()).unwrap();
        let mut m = s.clone();
        for l in &locs {
            let want = walk::lookup(s.as_value(), l).expect("own location") as *const Value;
            let plain: String = l.iter().map(|t| format!("/{}", walk::esc(t))).collect();
            let mut forms = vec![plain.clone()];
            for mode in 0..4 {
                forms.push(format!("#{}", pct(&plain, r, mode)));
            }
            for p in forms {
                rep.count("pointers_to_locations");
                match guarded(|| s.pointer(&p).map(|x| x as *const Value)) {
                    Ok(Some(x)) if x == want => {}
                    got => rep.violation("pointer-misses", &format!("pointer({p:?}) for keys {l:?}: {got:?}"), json!({"pointer": p, "keys": l, "doc": v})),
                }
                let want_v = walk::lookup(&v, l).unwrap().clone();
                let target = walk::lookup(m.as_value(), l).unwrap() as *const Value;
                match guarded(|| m.pointer_mut(&p).map(|x| (x as *const Value, x.clone()))) {
                    Ok(Some((x, y))) if x == target && y == want_v => {}
                    got => rep.violation("pointer-mut-misses", &format!("pointer_mut({p:?}) for keys {l:?}: {got:?}"), json!({"pointer": p, "keys": l, "doc": v})),
                }
            }
        }
        // a `%` without two hex digits behind it encodes nothing
        for l in &locs {
            let plain: String = l.iter().map(|t| format!("/{}", walk::esc(t))).collect();
            if !plain.bytes().any(|b| b < 16) {
                continue;
            }
            let spelled: String = plain
                .chars()
                .map(|c| match c as u32 {
                    n @ 0..16 => match r.below(3) {
                        0 => format!("%+{n:x}"),
                        1 => format!("%+{n:X}"),
                        _ => format!("%-{n:x}"),
                    },
                    _ => c.to_string(),
                })
                .collect();
            let p = format!("#{spelled}");
            let Some(want) = spec_lookup(s.as_value(), &p) else { continue };
            let want = want.map(|x| x as *const Value);
            rep.count("malformed_escapes");
            let mut m = s.clone();
            match guarded(|| (s.pointer(&p).map(|x| x as *const Value), m.pointer_mut(&p).is_some())) {
                Ok((got, got_mut)) if got == want && got_mut == want.is_some() => {}
                got => rep.violation("pointer-differs", &format!("pointer({p:?}): {got:?}, expected {want:?}"), json!({"pointer": p, "doc": v})),
            }
        }
        // strings that are no encoding of a location
        for _ in 0..12 {
            let base: String = match r.below(3) {
                0 => String::new(),
                _ => locs[r.below(locs.len())].iter().map(|t| format!("/{}", walk::esc(t))).collect(),
            };
            let mut p = base;
            for _ in 0..r.below(3) {
                let t = ["/", "%", "%2", "%2F", "%zz", "%+1", "%7e0", "~0", "~1", "0", "01", "-", "+0", "#", "é", "%C3", "%c3%a9", " ", "a", "/0"];
                let x = *r.pick(&t);
                if r.chance(1, 2) || p.is_empty() {
                    p.push_str(x)
                } else {
                    let mut i = r.below(p.len());
                    while !p.is_char_boundary(i) {
                        i -= 1;
                    }
                    p.insert_str(i, x)
                }
            }
            if r.chance(1, 2) {
                p.insert(0, '#');
            }
            let Some(want) = spec_lookup(s.as_value(), &p) else { continue };
            let want = want.map(|x| x as *const Value);
            rep.count(if want.is_some() { "odd_pointers_hit" } else { "odd_pointers_miss" });
            match guarded(|| s.pointer(&p).map(|x| x as *const Value)) {
                Ok(got) if got == want => {}
                got => rep.violation("pointer-differs", &format!("pointer({p:?}): {got:?}, expected {want:?}"), json!({"pointer": p, "doc": v})),
            }
            let mut m = s.clone();
            match guarded(|| m.pointer_mut(&p).is_some()) {
                Ok(got) if got == want.is_some() => {}
                got => rep.violation("pointer-mut-differs", &format!("pointer_mut({p:?}): {got:?}, expected {}", want.is_some()), json!({"pointer": p, "doc": v})),
            }
        }
        rep.sample("document", || json!({"doc": v, "locations": locs.len()}));
    }
    for b in [true, false] {
        let s = Schema::from(b);
        if s.pointer("").is_none() || s.pointer("#").is_none() || s.pointer("/a").is_some() || s.pointer("#/").is_some() {
            rep.violation("pointer-bool", "pointers into a boolean schema", json!(b));
        }
    }
    world::names(rep, r);
}

// ---------------------------------------------------------------------------------------- C15
/// A value of serde's whole data model.
#[derive(Debug, Clone)]
pub enum Any {
    Bool(bool),
    I(u8, i128),
    U(u8, u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Any>),
    Unit,
    UnitStruct,
    UnitVariant(usize),
    Newtype(usize, Box<Any>),
    NewtypeVariant(usize, Box<Any>),
    Seq(Vec<Any>, bool),
    Tuple(Vec<Any>),
    TupleStruct(usize, Vec<Any>),
    TupleVariant(usize, Vec<Any>),
    Map(Vec<(Any, Any)>, u8),
    Struct(usize, Vec<(usize, Any)>),
    StructVariant(usize, Vec<(usize, Any)>),
    Display(String),
    Fail,
}
const IDENTS: &[&str] = &["name", "a/b", "~t", "é\"", "", "$ref", "properties", "Value Name", "x", "type", "\u{1}", "title"];
impl Serialize for Any {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match self {
            Any::Bool(b) => s.serialize_bool(*b),
            Any::I(8, x) => s.serialize_i8(*x as i8),
            Any::I(16, x) => s.serialize_i16(*x as i16),
            Any::I(32, x) => s.serialize_i32(*x as i32),
            Any::I(64, x) => s.serialize_i64(*x as i64),
            Any::I(_, x) => s.serialize_i128(*x),
            Any::U(8, x) => s.serialize_u8(*x as u8),
            Any::U(16, x) => s.serialize_u16(*x as u16),
            Any::U(32, x) => s.serialize_u32(*x as u32),
            Any::U(64, x) => s.serialize_u64(*x as u64),
            Any::U(_, x) => s.serialize_u128(*x),
            Any::F32(x) => s.serialize_f32(*x),
            Any::F64(x) => s.serialize_f64(*x),
            Any::Char(c) => s.serialize_char(*c),
            Any::Str(x) => s.serialize_str(x),
            Any::Bytes(x) => s.serialize_bytes(x),
            Any::None => s.serialize_none(),
            Any::Some(x) => s.serialize_some(&**x),
            Any::Unit => s.serialize_unit(),
            Any::UnitStruct => s.serialize_unit_struct("UnitStruct"),
            Any::UnitVariant(i) => s.serialize_unit_variant("Enum", 0, IDENTS[*i]),
            Any::Newtype(i, x) => s.serialize_newtype_struct(IDENTS[*i], &**x),
            Any::NewtypeVariant(i, x) => s.serialize_newtype_variant("Enum", 1, IDENTS[*i], &**x),
            Any::Seq(v, collect) => {
                if *collect {
                    return s.collect_seq(v);
                }
                let mut q = s.serialize_seq(None)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Any::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Any::TupleStruct(i, v) => {
                let mut q = s.serialize_tuple_struct(IDENTS[*i], v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Any::TupleVariant(i, v) => {
                let mut q = s.serialize_tuple_variant("Enum", 2, IDENTS[*i], v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Any::Map(v, how) => match how {
                0 => s.collect_map(v.iter().map(|(k, x)| (k, x))),
                1 => {
                    let mut q = s.serialize_map(Some(v.len()))?;
                    for (k, x) in v {
                        q.serialize_entry(k, x)?;
                    }
                    q.end()
                }
                _ => {
                    let mut q = s.serialize_map(None)?;
                    for (k, x) in v {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    }
                    q.end()
                }
            },
            Any::Struct(i, f) => {
                let mut q = s.serialize_struct(IDENTS[*i], f.len())?;
                for (k, x) in f {
                    if *k == IDENTS.len() {
                        q.skip_field("skipped")?;
                    } else {
                        q.serialize_field(IDENTS[*k], x)?;
                    }
                }
                q.end()
            }
            Any::StructVariant(i, f) => {
                let mut q = s.serialize_struct_variant("Enum", 3, IDENTS[*i], f.len())?;
                for (k, x) in f {
                    if *k == IDENTS.len() {
                        q.skip_field("skipped")?;
                    } else {
                        q.serialize_field(IDENTS[*k], x)?;
                    }
                }
                q.end()
            }
            Any::Display(x) => s.collect_str(x),
            Any::Fail => Err(S::Error::custom("no")),
        }
    }
}
fn ident(r: &mut Rng) -> usize {
    r.below(IDENTS.len())
}
fn text(r: &mut Rng) -> String {
    anykey(r)
}
fn int(r: &mut Rng) -> i128 {
    *r.pick(&[0, 1, -1, 127, -128, 255, 65535, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, 42])
}
pub fn any_key(r: &mut Rng, d: usize) -> Any {
    match r.below(14) {
        0..=4 => Any::Str(text(r)),
        5 => Any::Char(world::random_char(r)),
        6 => Any::I(*r.pick(&[8, 16, 32, 64]), int(r)),
        7 => Any::U(*r.pick(&[8, 16, 32, 64]), int(r).max(0) as u128),
        8 => Any::Bool(r.chance(1, 2)),
        9 => Any::UnitVariant(ident(r)),
        10 if d > 0 => Any::Newtype(ident(r), Box::new(any_key(r, d - 1))),
        11 => Any::Display(text(r)),
        12 if r.chance(1, 8) => any(r, 1), // mostly not usable as a key
        _ => Any::Str(format!("k{}", r.below(20))),
    }
}
pub fn any(r: &mut Rng, d: usize) -> Any {
    let list = |r: &mut Rng| -> Vec<Any> {
        let same = r.chance(1, 2);
        let mut v: Vec<Any> = vec![];
        for _ in 0..r.below(4) {
            if same && !v.is_empty() && r.chance(1, 2) {
                let x = v[0].clone();
                v.push(x);
            } else {
                v.push(any(r, d.saturating_sub(1)));
            }
        }
        v
    };
    let fields = |r: &mut Rng| -> Vec<(usize, Any)> {
        let mut ks: Vec<usize> = (0..=IDENTS.len()).collect();
        r.shuffle(&mut ks);
        let n = r.below(5);
        ks.truncate(n);
        ks.into_iter().map(|k| (k, any(r, d.saturating_sub(1)))).collect()
    };
    // deep values lean towards containers
    let pick = if d == 0 { r.below(13) } else if d > 1 && r.chance(2, 3) { r.range(13, 24) } else { r.below(25) };
    match pick {
        0 => Any::Bool(r.chance(1, 2)),
        1 => Any::I(*r.pick(&[8, 16, 32, 64, 128]), int(r)),
        2 => Any::U(*r.pick(&[8, 16, 32, 64, 128]), int(r).max(0) as u128),
        3 => Any::F32(*r.pick(&[0.0, 1.0, -1.5, 1e30, -0.0])),
        4 => Any::F64(*r.pick(&[0.0, 1.0, -1.5, 1e300, 5e-324])),
        5 => Any::Char(world::random_char(r)),
        6 => Any::Str(text(r)),
        7 => Any::Bytes((0..r.below(4)).map(|_| r.next() as u8).collect()),
        8 => Any::None,
        9 => Any::Unit,
        10 => Any::UnitStruct,
        11 => Any::UnitVariant(ident(r)),
        12 => {
            if r.chance(1, 12) {
                Any::Fail
            } else {
                Any::Display(text(r))
            }
        }
        13 | 14 => Any::Some(Box::new(any(r, d - 1))),
        15 => Any::Newtype(ident(r), Box::new(any(r, d - 1))),
        16 => Any::NewtypeVariant(ident(r), Box::new(any(r, d - 1))),
        17 | 18 => Any::Seq(list(r), r.chance(1, 2)),
        19 => Any::Tuple(list(r)),
        20 => Any::TupleStruct(ident(r), list(r)),
        21 => Any::TupleVariant(ident(r), list(r)),
        22 => {
            let n = r.below(4);
            Any::Map((0..n).map(|_| (any_key(r, 2), any(r, d - 1))).collect(), r.below(3) as u8)
        }
        23 => Any::Struct(ident(r), fields(r)),
        _ => Any::StructVariant(ident(r), fields(r)),
    }
}

/// Every `properties` list names exactly the members of the object it describes.
fn named(s: &Value, v: &Value, at: &str) -> Result<u64, String> {
    let mut n = 0;
    if let (Some(Value::Object(p)), Value::Object(o)) = (s.get("properties"), v) {
        let mut a: Vec<&String> = p.keys().collect();
        let mut b: Vec<&String> = o.keys().collect();
        a.sort();
        b.sort();
        if a != b {
            return Err(format!("{at}: members {a:?} listed for keys {b:?}"));
        }
        n += 1;
        for (k, x) in p {
            n += named(x, &o[k], &format!("{at}/{k}"))?;
        }
    }
    if let (Some(Value::Array(p)), Value::Array(o)) = (s.get("prefixItems").or(s.get("items")), v) {
        for (i, (x, y)) in p.iter().zip(o).enumerate() {
            n += named(x, y, &format!("{at}/{i}"))?;
        }
    }
    if let (Some(x @ Value::Object(i)), Value::Array(o)) = (s.get("items"), v) {
        if i.get("anyOf").is_none() {
            for y in o {
                n += named(x, y, &format!("{at}/*"))?;
            }
        }
    }
    Ok(n)
}

pub fn c15(rep: &mut Report, r: &mut Rng) {
    for i in 0..Report::scale(2500, 40000) {
        let depth = *r.pick(&[0, 1, 2, 3, 3, 4, 4]);
        let v: Any = any(r, depth);
        let dbg = format!("{v:?}");
        let js = serde_json::to_value(&v).ok();
        let nontrivial = js.as_ref().is_some_and(|j| j.is_object() || j.is_array());
        rep.case(&dbg, nontrivial);
        rep.count(if js.is_some() { "values_with_json" } else { "values_without_json" });
        let dia = DIALECTS[i % 4];
        let mut bad = |sig: &str, what: String| rep_violation(rep, sig, what, &dbg, &js);
        let st = || dia.settings();
        let runs: Vec<(&str, Result<Result<Schema, serde_json::Error>, String>)> = vec![
            ("into", guarded(|| st().into_generator().into_root_schema_for_value(&v))),
            ("borrow", guarded(|| st().into_generator().root_schema_for_value(&v))),
            ("repeat", {
                let mut g = st().into_generator();
                let _ = guarded(|| g.root_schema_for_value(&v));
                guarded(|| g.root_schema_for_value(&v))
            }),
            ("reference", guarded(|| st().into_generator().into_root_schema_for_value(&&v))),
        ];
        let mut first: Option<Value> = None;
        let mut stop = false;
        for (how, x) in runs {
            match x {
                Err(e) => {
                    bad(&format!("panic:{how}"), format!("{how} panics: {e}"));
                    stop = true;
                }
                Ok(Err(e)) => {
                    if js.is_some() {
                        bad(&format!("refused:{how}"), format!("{how} fails ({e}) although the value has a JSON form"));
                    }
                    if first.is_some() {
                        bad("entry-points", format!("{how} fails, into does not"));
                    }
                    stop = true;
                }
                Ok(Ok(s)) => {
                    let s = s.to_value();
                    match &first {
                        None if !stop => first = Some(s),
                        None => bad("entry-points", format!("{how} succeeds, into does not")),
                        Some(f) if *f != s || f.to_string() != s.to_string() => bad("entry-points", format!("{how} gives {}, into gives {}", cut(&s.to_string()), cut(&f.to_string()))),
                        _ => {}
                    }
                }
            }
        }
        let Some(s) = first else { continue };
        if dia == Dia::D20 {
            match guarded(|| schemars::schema_for_value!(v).to_value()) {
                Ok(m) if m == s => {}
                Ok(m) => bad("macro", format!("schema_for_value! gives {}", cut(&m.to_string()))),
                Err(e) => bad("macro", format!("schema_for_value! panics: {e}")),
            }
        }
        let probs = dialect::problems(&s, dia);
        if let Some(p) = probs.first() {
            bad(&format!("dialect:{}", dia.name()), format!("{p} in {}", cut(&s.to_string())));
        }
        let (_, rp) = dialect::ref_problems(&s, "/$defs");
        if let Some(p) = rp.first() {
            bad("reference", p.clone());
        }
        let Some(j) = &js else {
            if s.get("examples").is_some() || s.get("example").is_some() {
                bad("example-without-json", "an example is shown for a value without JSON form".into());
            }
            continue;
        };
        match compile(&s, dia) {
            Ok(c) => {
                if !c.is_valid(j) {
                    bad(&format!("rejects:{}", dia.name()), format!("schema {} rejects {j}", cut(&s.to_string())));
                }
            }
            Err(e) => bad("invalid", e),
        }
        let ex = if dia == Dia::OA3 { s.get("example").cloned().map(|e| json!([e])) } else { s.get("examples").cloned() };
        if ex != Some(json!([j])) {
            bad("example", format!("example is {ex:?}, JSON is {j}"));
        }
        match named(&s, j, "") {
            Ok(n) => rep.add("objects_with_listed_members", n),
            Err(e) => bad("names", format!("{e} in {}", cut(&s.to_string()))),
        }
        rep.sample(dia.name(), || json!({"value": dbg, "json": j, "schema": s}));
    }
}
fn rep_violation(rep: &mut Report, sig: &str, what: String, dbg: &str, js: &Option<Value>) {
    rep.violation(sig, &format!("{what} for {}", cut(dbg)), json!({"value": dbg, "json": js}));
}
