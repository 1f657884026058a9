//! Schema traversal and reference resolution written from the specifications (JSON Schema
//! draft-07/2019-09/2020-12, RFC 6901, RFC 3986), not from schemars.
use serde_json::Value;

pub const SINGLE: &[&str] = &[
    "not", "if", "then", "else", "contains", "additionalProperties", "propertyNames", "additionalItems",
    "unevaluatedItems", "unevaluatedProperties", "contentSchema",
];
pub const ARRAYS: &[&str] = &["allOf", "anyOf", "oneOf", "prefixItems"];
pub const MAPS: &[&str] = &["properties", "patternProperties", "$defs", "definitions", "dependentSchemas"];
/// arrays or schema / maps of (schema | array of names)
pub const ITEMS: &str = "items";
pub const DEPS: &str = "dependencies";

pub fn esc(s: &str) -> String {
    s.replace('~', "~0").replace('/', "~1")
}

fn is_schema(v: &Value) -> bool {
    v.is_object() || v.is_boolean()
}

/// Direct subschemas as (relative pointer, schema).
pub fn direct(schema: &Value) -> Vec<(String, &Value)> {
    let mut out = Vec::new();
    let Value::Object(o) = schema else { return out };
    for (k, v) in o {
        let k = k.as_str();
        if SINGLE.contains(&k) || (k == ITEMS && !v.is_array()) {
            if is_schema(v) {
                out.push((format!("/{}", esc(k)), v));
            }
        } else if ARRAYS.contains(&k) || k == ITEMS {
            if let Value::Array(a) = v {
                for (i, x) in a.iter().enumerate() {
                    if is_schema(x) {
                        out.push((format!("/{k}/{i}"), x));
                    }
                }
            }
        } else if MAPS.contains(&k) || k == DEPS {
            if let Value::Object(m) = v {
                for (n, x) in m {
                    if is_schema(x) {
                        out.push((format!("/{}/{}", esc(k), esc(n)), x));
                    }
                }
            }
        }
    }
    out
}

/// Visits every schema of a document (pre-order), including OpenAPI component schemas.
pub fn walk<'a>(root: &'a Value, f: &mut dyn FnMut(&str, &'a Value)) {
    fn go<'a>(p: &str, v: &'a Value, f: &mut dyn FnMut(&str, &'a Value)) {
        f(p, v);
        for (q, x) in direct(v) {
            go(&format!("{p}{q}"), x, f);
        }
    }
    go("", root, f);
    if let Some(Value::Object(m)) = root.pointer("/components/schemas") {
        for (n, x) in m {
            go(&format!("/components/schemas/{}", esc(n)), x, f);
        }
    }
}

/// Visits schemas including those at a custom definitions pointer.
pub fn walk_with<'a>(root: &'a Value, defs_ptr: &str, f: &mut dyn FnMut(&str, &'a Value)) {
    walk(root, f);
    if !["/$defs", "/definitions", "/components/schemas"].contains(&defs_ptr) {
        if let Some(Value::Object(m)) = root.pointer(defs_ptr) {
            for (n, x) in m {
                if defs_ptr.is_empty() && !x.is_object() {
                    continue;
                }
                let base = format!("{defs_ptr}/{}", esc(n));
                walk(x, &mut |p, v| f(&format!("{base}{p}"), v));
            }
        }
    }
}

/// RFC 3986: `*( pchar / "/" / "?" )`
pub fn valid_fragment(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                if i + 2 >= b.len() {
                    return false;
                }
                if !b[i + 1].is_ascii_hexdigit() || !b[i + 2].is_ascii_hexdigit() {
                    return false;
                }
                i += 3;
                continue;
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' | b'!' | b'$' | b'&' | b'\''
            | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=' | b':' | b'@' | b'/' | b'?' => {}
            _ => return false,
        }
        i += 1;
    }
    true
}

pub fn pct_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}

/// Pointer tokens of a same-document reference, or None if it isn't one.
pub fn ref_tokens(r: &str) -> Option<Vec<String>> {
    let frag = r.strip_prefix('#')?;
    let dec = pct_decode(frag)?;
    if dec.is_empty() {
        return Some(vec![]);
    }
    let rest = dec.strip_prefix('/')?;
    Some(rest.split('/').map(|t| t.replace("~1", "/").replace("~0", "~")).collect())
}

pub fn lookup<'a>(root: &'a Value, toks: &[String]) -> Option<&'a Value> {
    let mut v = root;
    for t in toks {
        v = match v {
            Value::Object(o) => o.get(t)?,
            Value::Array(a) => {
                if t != "0" && (t.starts_with('0') || !t.bytes().all(|b| b.is_ascii_digit())) {
                    return None;
                }
                a.get(t.parse::<usize>().ok()?)?
            }
            _ => return None,
        };
    }
    Some(v)
}

pub fn resolve<'a>(root: &'a Value, r: &str) -> Option<&'a Value> {
    lookup(root, &ref_tokens(r)?)
}
