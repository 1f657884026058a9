//! Shared monitor machinery: deterministic PRNG, result recording, independent validation,
//! schema walking and dialect rules. Nothing in here is derived from schemars' own code.
#![allow(clippy::all)]
pub mod api;
pub mod combi;
pub mod corpus;
pub mod dialect;
pub mod eval;
pub mod gen;
pub mod ids;
pub mod lib_types;
pub mod meta;
pub mod model;
pub mod repr;
pub mod vals;
pub mod report;
pub mod rng;
pub mod transforms;
pub mod twins;
pub mod val;
pub mod walk;
pub mod world;

pub use report::Report;
pub use rng::Rng;
pub use serde_json::{json, Map, Value};

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// Key-order-insensitive canonical text of a JSON value.
pub fn canon(v: &Value) -> String {
    fn go(v: &Value, out: &mut String) {
        match v {
            Value::Object(o) => {
                let mut ks: Vec<_> = o.keys().collect();
                ks.sort();
                out.push('{');
                for (i, k) in ks.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(&serde_json::to_string(k).unwrap());
                    out.push(':');
                    go(&o[*k], out);
                }
                out.push('}');
            }
            Value::Array(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    go(x, out);
                }
                out.push(']');
            }
            _ => out.push_str(&v.to_string()),
        }
    }
    let mut s = String::new();
    go(v, &mut s);
    s
}

/// As `canon`, but with every `required` array sorted as well (its order has no meaning).
pub fn canon_schema(v: &Value) -> String {
    fn norm(v: &Value) -> Value {
        match v {
            Value::Object(o) => Value::Object(
                o.iter()
                    .map(|(k, x)| {
                        let mut y = norm(x);
                        if k == "required" {
                            if let Value::Array(a) = &mut y {
                                if a.iter().all(Value::is_string) {
                                    a.sort_by(|p, q| p.as_str().cmp(&q.as_str()));
                                }
                            }
                        }
                        (k.clone(), y)
                    })
                    .collect(),
            ),
            Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
            _ => v.clone(),
        }
    }
    canon(&norm(v))
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
