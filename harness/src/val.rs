//! Independent validation (jsonschema crate), one compiled validator per schema.
use jsonschema::{Draft, Validator};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Dia {
    D7,
    D19,
    D20,
    OA3,
}
pub const DIALECTS: [Dia; 4] = [Dia::D7, Dia::D19, Dia::D20, Dia::OA3];

impl Dia {
    pub fn settings(self) -> schemars::generate::SchemaSettings {
        use schemars::generate::SchemaSettings as S;
        match self {
            Dia::D7 => S::draft07(),
            Dia::D19 => S::draft2019_09(),
            Dia::D20 => S::draft2020_12(),
            Dia::OA3 => openapi_fixed(),
        }
    }
    pub fn draft(self) -> Draft {
        match self {
            Dia::D7 | Dia::OA3 => Draft::Draft7,
            Dia::D19 => Draft::Draft201909,
            Dia::D20 => Draft::Draft202012,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Dia::D7 => "draft07",
            Dia::D19 => "draft2019-09",
            Dia::D20 => "draft2020-12",
            Dia::OA3 => "openapi3",
        }
    }
}

/// OpenAPI settings whose root transforms also reach /components/schemas: definitions are moved to
/// `$defs` while the transforms run (as the repository's own settings test does).
pub fn openapi_fixed() -> schemars::generate::SchemaSettings {
    let mut s = schemars::generate::SchemaSettings::openapi3();
    s.transforms.insert(
        0,
        Box::new(|s: &mut schemars::Schema| {
            let defs = s
                .get_mut("components")
                .and_then(|c| c.get_mut("schemas"))
                .map(Value::take);
            if let Some(d) = defs {
                s.insert("$defs".into(), d);
            }
        }),
    );
    s.transforms.push(Box::new(|s: &mut schemars::Schema| {
        if let Some(d) = s.remove("$defs") {
            if let Some(x) = s.get_mut("components").and_then(|c| c.get_mut("schemas")) {
                *x = d;
            }
        }
    }));
    s
}

pub fn compile(schema: &Value, d: Dia) -> Result<Validator, String> {
    let owned;
    let schema = if d == Dia::OA3 {
        let mut o = openapi_to_d7(schema);
        if let Some(m) = o.as_object_mut() {
            m.remove("$schema");
        }
        owned = o;
        &owned
    } else {
        schema
    };
    jsonschema::options()
        .with_draft(d.draft())
        .should_validate_formats(false)
        .build(schema)
        .map_err(|e| format!("{e} at {}", e.instance_path))
}

/// Rewrites an OpenAPI 3.0 schema into draft-07 with the same meaning (`nullable` becomes a union).
pub fn openapi_to_d7(v: &Value) -> Value {
    let Value::Object(o) = v else { return v.clone() };
    let mut out = serde_json::Map::new();
    for (k, x) in o {
        let y = match k.as_str() {
            "properties" | "patternProperties" | "definitions" | "$defs" => match x {
                Value::Object(m) => Value::Object(m.iter().map(|(k, s)| (k.clone(), openapi_to_d7(s))).collect()),
                _ => x.clone(),
            },
            "components" => {
                let mut c = x.clone();
                if let Some(Value::Object(m)) = c.get_mut("schemas") {
                    for (_, s) in m.iter_mut() {
                        *s = openapi_to_d7(s);
                    }
                }
                c
            }
            "allOf" | "anyOf" | "oneOf" => match x {
                Value::Array(a) => Value::Array(a.iter().map(openapi_to_d7).collect()),
                _ => x.clone(),
            },
            "items" => match x {
                Value::Array(a) => Value::Array(a.iter().map(openapi_to_d7).collect()),
                _ => openapi_to_d7(x),
            },
            "not" | "additionalProperties" | "if" | "then" | "else" | "contains" | "propertyNames"
            | "additionalItems" => openapi_to_d7(x),
            _ => x.clone(),
        };
        out.insert(k.clone(), y);
    }
    // OAS 3.0.3: `nullable` adds null to the types allowed by `type` in the same schema object,
    // and has no effect without `type`.
    if out.remove("nullable") == Some(Value::Bool(true)) {
        match out.get_mut("type") {
            Some(Value::Array(a)) => {
                if !a.contains(&json!("null")) {
                    a.push(json!("null"));
                }
            }
            Some(t) if t.is_string() && t != "null" => *t = json!([t.take(), "null"]),
            _ => {}
        }
    }
    Value::Object(out)
}

pub fn meta_ok(schema: &Value, d: Dia) -> Result<(), String> {
    use std::sync::OnceLock;
    static M: OnceLock<Vec<(Dia, Validator)>> = OnceLock::new();
    let ms = M.get_or_init(|| {
        let mk = |d: Dia, m: &Value| (d, jsonschema::options().with_draft(d.draft()).build(m).unwrap());
        vec![
            mk(Dia::D7, &referencing_meta("http://json-schema.org/draft-07/schema#")),
            mk(Dia::D19, &referencing_meta("https://json-schema.org/draft/2019-09/schema")),
            mk(Dia::D20, &referencing_meta("https://json-schema.org/draft/2020-12/schema")),
        ]
    });
    for (k, v) in ms {
        if *k == d {
            if let Some(e) = v.iter_errors(schema).next() {
                return Err(format!("{e} at {}", e.instance_path));
            }
        }
    }
    Ok(())
}

fn referencing_meta(uri: &str) -> Value {
    json!({ "$ref": uri })
}
