//! A small JSON Schema evaluator (draft-07, 2019-09, 2020-12) written from the specifications.
//! It needs no compilation, so it is used where very many small schemas are compared; it is
//! cross-checked against the jsonschema crate on every run (see `transforms::cross_check`).
use crate::val::{openapi_to_d7, Dia};
use crate::walk;
use serde_json::{Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};

#[derive(Default)]
struct Seen {
    props: BTreeSet<String>,
    items: BTreeSet<usize>,
}
impl Seen {
    fn add(&mut self, o: Seen) {
        self.props.extend(o.props);
        self.items.extend(o.items);
    }
}

pub struct Eval<'a> {
    root: Cow<'a, Value>,
    d: Dia,
}

pub fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => match (x.as_i128(), y.as_i128()) {
            (Some(p), Some(q)) => p == q,
            _ => x.as_f64() == y.as_f64(),
        },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| equal(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| equal(p, q))),
        _ => a == b,
    }
}

fn re(p: &str) -> Option<regex::Regex> {
    thread_local!(static C: RefCell<HashMap<String, Option<regex::Regex>>> = RefCell::new(HashMap::new()));
    C.with(|c| c.borrow_mut().entry(p.to_string()).or_insert_with(|| regex::Regex::new(p).ok()).clone())
}

fn is_type(t: &str, v: &Value) -> bool {
    match t {
        "null" => v.is_null(),
        "boolean" => v.is_boolean(),
        "object" => v.is_object(),
        "array" => v.is_array(),
        "string" => v.is_string(),
        "number" => v.is_number(),
        "integer" => v.as_number().is_some_and(|n| n.is_i64() || n.is_u64() || n.as_i128().is_some() || n.as_f64().is_some_and(|f| f.fract() == 0.0)),
        _ => false,
    }
}

impl<'a> Eval<'a> {
    pub fn new(root: &'a Value, d: Dia) -> Self {
        if d == Dia::OA3 {
            Eval { root: Cow::Owned(openapi_to_d7(root)), d: Dia::D7 }
        } else {
            Eval { root: Cow::Borrowed(root), d }
        }
    }
    pub fn owned(root: &Value, d: Dia) -> Eval<'static> {
        match Eval::new(root, d) {
            Eval { root, d } => Eval { root: Cow::Owned(root.into_owned()), d },
        }
    }
    /// None: the schema has something this evaluator does not understand.
    pub fn is_valid(&self, v: &Value) -> Option<bool> {
        self.go(&self.root, v, 0).map(|x| x.is_some())
    }

    fn go(&self, s: &Value, v: &Value, depth: usize) -> Option<Option<Seen>> {
        if depth > 200 {
            return None;
        }
        let o = match s {
            Value::Bool(true) => return Some(Some(Seen::default())),
            Value::Bool(false) => return Some(None),
            Value::Object(o) => o,
            _ => return None,
        };
        let old = self.d == Dia::D7;
        let mut seen = Seen::default();
        let sub = |s: &Value, v: &Value| self.go(s, v, depth + 1);
        let fail = Some(None);
        if let Some(r) = o.get("$ref") {
            let t = walk::resolve(&self.root, r.as_str()?)?;
            match sub(t, v)? {
                None => return fail,
                Some(x) => seen.add(x),
            }
            if old {
                return Some(Some(seen));
            }
        }
        match o.get("type") {
            None => {}
            Some(Value::String(t)) => {
                if !is_type(t, v) {
                    return fail;
                }
            }
            Some(Value::Array(a)) => {
                if !a.iter().any(|t| t.as_str().is_some_and(|t| is_type(t, v))) {
                    return fail;
                }
            }
            _ => return None,
        }
        if o.get("const").is_some_and(|c| !equal(c, v)) {
            return fail;
        }
        if let Some(e) = o.get("enum") {
            if !e.as_array()?.iter().any(|c| equal(c, v)) {
                return fail;
            }
        }
        let num = |k: &str| -> Option<Option<f64>> {
            match o.get(k) {
                None => Some(None),
                Some(x) => Some(Some(x.as_f64()?)),
            }
        };
        if let Some(x) = v.as_f64() {
            if num("minimum")?.is_some_and(|m| x < m)
                || num("maximum")?.is_some_and(|m| x > m)
                || num("exclusiveMinimum")?.is_some_and(|m| x <= m)
                || num("exclusiveMaximum")?.is_some_and(|m| x >= m)
                || num("multipleOf")?.is_some_and(|m| (x / m).fract() != 0.0)
            {
                return fail;
            }
        }
        if let Value::String(x) = v {
            let n = x.chars().count() as f64;
            if num("minLength")?.is_some_and(|m| n < m) || num("maxLength")?.is_some_and(|m| n > m) {
                return fail;
            }
            if let Some(p) = o.get("pattern") {
                if !re(p.as_str()?)?.is_match(x) {
                    return fail;
                }
            }
        }
        if let Value::Array(a) = v {
            let n = a.len() as f64;
            if num("minItems")?.is_some_and(|m| n < m) || num("maxItems")?.is_some_and(|m| n > m) {
                return fail;
            }
            if o.get("uniqueItems") == Some(&Value::Bool(true)) && (0..a.len()).any(|i| (0..i).any(|j| equal(&a[i], &a[j]))) {
                return fail;
            }
            let (first, rest) = if self.d == Dia::D20 {
                (o.get("prefixItems"), o.get("items"))
            } else {
                match o.get("items") {
                    Some(x @ Value::Array(_)) => (Some(x), o.get("additionalItems")),
                    x => (None, x),
                }
            };
            let mut k = 0;
            if let Some(f) = first {
                for (s, x) in f.as_array()?.iter().zip(a) {
                    if sub(s, x)?.is_none() {
                        return fail;
                    }
                    seen.items.insert(k);
                    k += 1;
                }
                k = f.as_array()?.len();
            }
            if let Some(s) = rest {
                for (i, x) in a.iter().enumerate().skip(k) {
                    if sub(s, x)?.is_none() {
                        return fail;
                    }
                    seen.items.insert(i);
                }
            }
            if let Some(c) = o.get("contains") {
                let mut n = 0;
                for (i, x) in a.iter().enumerate() {
                    if sub(c, x)?.is_some() {
                        n += 1;
                        if self.d == Dia::D20 {
                            seen.items.insert(i);
                        }
                    }
                }
                let (lo, hi) = if old { (None, None) } else { (num("minContains")?, num("maxContains")?) };
                if (n as f64) < lo.unwrap_or(1.0) || hi.is_some_and(|h| n as f64 > h) {
                    return fail;
                }
            }
        }
        if let Value::Object(m) = v {
            let n = m.len() as f64;
            if num("minProperties")?.is_some_and(|k| n < k) || num("maxProperties")?.is_some_and(|k| n > k) {
                return fail;
            }
            if let Some(r) = o.get("required") {
                if !r.as_array()?.iter().all(|k| k.as_str().is_some_and(|k| m.contains_key(k))) {
                    return fail;
                }
            }
            let empty = Map::new();
            let props = o.get("properties").map_or(Some(&empty), Value::as_object)?;
            let pats = o.get("patternProperties").map_or(Some(&empty), Value::as_object)?;
            for (k, x) in m {
                let mut named = false;
                if let Some(s) = props.get(k) {
                    named = true;
                    if sub(s, x)?.is_none() {
                        return fail;
                    }
                }
                for (p, s) in pats {
                    if re(p)?.is_match(k) {
                        named = true;
                        if sub(s, x)?.is_none() {
                            return fail;
                        }
                    }
                }
                if !named {
                    if let Some(s) = o.get("additionalProperties") {
                        if sub(s, x)?.is_none() {
                            return fail;
                        }
                        named = true;
                    }
                }
                if named {
                    seen.props.insert(k.clone());
                }
                if let Some(s) = o.get("propertyNames") {
                    if sub(s, &Value::String(k.clone()))?.is_none() {
                        return fail;
                    }
                }
            }
            let mut dep = |k: &str| -> Option<bool> {
                for (p, s) in o.get(k).map_or(Some(&empty), Value::as_object)? {
                    if m.contains_key(p) {
                        if let Value::Array(a) = s {
                            if !a.iter().all(|n| n.as_str().is_some_and(|n| m.contains_key(n))) {
                                return Some(false);
                            }
                        } else {
                            match sub(s, v)? {
                                None => return Some(false),
                                Some(x) => seen.add(x),
                            }
                        }
                    }
                }
                Some(true)
            };
            for k in if old { &["dependencies"][..] } else { &["dependentSchemas", "dependentRequired"][..] } {
                if !dep(k)? {
                    return fail;
                }
            }
        }
        if let Some(a) = o.get("allOf") {
            for s in a.as_array()? {
                match sub(s, v)? {
                    None => return fail,
                    Some(x) => seen.add(x),
                }
            }
        }
        for (k, exactly) in [("anyOf", false), ("oneOf", true)] {
            if let Some(a) = o.get(k) {
                let mut n = 0;
                for s in a.as_array()? {
                    if let Some(x) = sub(s, v)? {
                        n += 1;
                        seen.add(x);
                    }
                }
                if n == 0 || (exactly && n > 1) {
                    return fail;
                }
            }
        }
        if let Some(s) = o.get("not") {
            if sub(s, v)?.is_some() {
                return fail;
            }
        }
        if let Some(c) = o.get("if") {
            let b = match sub(c, v)? {
                Some(x) => {
                    seen.add(x);
                    o.get("then")
                }
                None => o.get("else"),
            };
            if let Some(s) = b {
                match sub(s, v)? {
                    None => return fail,
                    Some(x) => seen.add(x),
                }
            }
        }
        if !old {
            if let (Some(s), Value::Object(m)) = (o.get("unevaluatedProperties"), v) {
                for (k, x) in m {
                    if !seen.props.contains(k) {
                        if sub(s, x)?.is_none() {
                            return fail;
                        }
                        seen.props.insert(k.clone());
                    }
                }
            }
            if let (Some(s), Value::Array(a)) = (o.get("unevaluatedItems"), v) {
                for (i, x) in a.iter().enumerate() {
                    if !seen.items.contains(&i) {
                        if sub(s, x)?.is_none() {
                            return fail;
                        }
                        seen.items.insert(i);
                    }
                }
            }
        }
        Some(Some(seen))
    }
}
