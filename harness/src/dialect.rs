//! Dialect conformance rules, written from the dialect specifications.
use crate::val::{meta_ok, Dia};
use crate::walk;
use serde_json::Value;

/// Everything wrong with `root` as a document of dialect `d` (empty = conforms).
pub fn problems(root: &Value, d: Dia) -> Vec<String> {
    let mut out = Vec::new();
    let want = match d {
        Dia::D7 => Some("http://json-schema.org/draft-07/schema#"),
        Dia::D19 => Some("https://json-schema.org/draft/2019-09/schema"),
        Dia::D20 => Some("https://json-schema.org/draft/2020-12/schema"),
        Dia::OA3 => None,
    };
    if let Some(w) = want {
        if root.get("$schema").and_then(Value::as_str) != Some(w) {
            out.push(format!("root $schema is {:?}", root.get("$schema")));
        }
        if let Err(e) = meta_ok(root, d) {
            out.push(format!("meta-schema: {e}"));
        }
    } else if !root.get("$schema").and_then(Value::as_str).is_some_and(|s| s.starts_with("https://spec.openapis.org/oas/3.0/")) {
        out.push(format!("root $schema is {:?}", root.get("$schema")));
    }
    forms(root, d, &mut out);
    out
}

pub fn forms(root: &Value, d: Dia, out: &mut Vec<String>) {
    walk::walk(root, &mut |p, s| {
        let last_ap = p.ends_with("/additionalProperties");
        if let Value::Bool(b) = s {
            if d == Dia::OA3 && !last_ap {
                out.push(format!("boolean schema {b} at {p}"));
            }
            return;
        }
        let Value::Object(o) = s else { return };
        let banned: &[&str] = match d {
            Dia::D20 => &["definitions", "additionalItems", "dependencies", "nullable", "example", "$recursiveRef", "$recursiveAnchor", "id"],
            Dia::D19 => &["definitions", "prefixItems", "dependencies", "nullable", "example", "$dynamicRef", "$dynamicAnchor", "id"],
            Dia::D7 => &[
                "$defs", "prefixItems", "dependentSchemas", "dependentRequired", "unevaluatedProperties", "unevaluatedItems",
                "minContains", "maxContains", "nullable", "example", "$anchor", "$dynamicRef", "$recursiveRef", "id",
            ],
            Dia::OA3 => &[
                "$defs", "definitions", "prefixItems", "const", "examples", "unevaluatedProperties", "unevaluatedItems",
                "dependentSchemas", "dependentRequired", "$anchor", "id",
            ],
        };
        for k in banned {
            if o.contains_key(*k) {
                out.push(format!("keyword {k} at {p:?}"));
            }
        }
        if d == Dia::D20 && o.get("items").is_some_and(Value::is_array) {
            out.push(format!("array-form items at {p:?}"));
        }
        if matches!(d, Dia::D7 | Dia::OA3) && o.contains_key("$ref") && o.len() > 1 {
            out.push(format!("$ref with siblings at {p:?}"));
        }
        if d == Dia::OA3 {
            match o.get("type") {
                Some(Value::String(t)) if t == "null" => out.push(format!("null type at {p:?}")),
                Some(Value::Array(a)) if a.iter().any(|t| t == "null") => out.push(format!("null in type at {p:?}")),
                Some(Value::Array(a)) if a.is_empty() => out.push(format!("empty type at {p:?}")),
                _ => {}
            }
        }
        if let (Some(_), Dia::D7 | Dia::D19 | Dia::D20) = (o.get("$schema"), d) {
            if !p.is_empty() {
                out.push(format!("nested $schema at {p:?}"));
            }
        }
    });
}

/// Dangling, malformed or placeholder references (empty = all resolve).
pub fn ref_problems(root: &Value, defs_ptr: &str) -> (usize, Vec<String>) {
    let mut n = 0;
    let mut out = Vec::new();
    walk::walk_with(root, defs_ptr, &mut |p, s| {
        let Some(r) = s.get("$ref") else { return };
        n += 1;
        let Some(r) = r.as_str() else {
            out.push(format!("non-string $ref at {p:?}"));
            return;
        };
        if !r.starts_with('#') || !walk::valid_fragment(&r[1..]) {
            out.push(format!("$ref {r:?} at {p:?} is not a valid same-document URI fragment"));
            return;
        }
        match walk::resolve(root, r) {
            None => out.push(format!("$ref {r:?} at {p:?} does not resolve")),
            Some(Value::Object(_)) => {}
            // A definition that is legitimately `false`/`true` only stems from a type whose schema
            // is boolean; callers that own such types whitelist them.
            Some(other) => out.push(format!("$ref {r:?} at {p:?} resolves to {other}")),
        }
    });
    (n, out)
}
