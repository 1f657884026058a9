//! Reference model of serde's documented representations, driven by type descriptors that the
//! program generator emits next to the Rust code. Written from serde's documentation; the model is
//! cross-checked against serde's own verdict at run time and disagreements are skipped and counted.
use crate::Rng;
use serde::Deserialize;
use serde_json::{json, Map, Value};

#[derive(Deserialize, Clone, Debug)]
#[serde(tag = "k", rename_all = "snake_case")]
pub enum Ty {
    Prim { name: String },
    Opt { t: Box<Ty> },
    Vec { t: Box<Ty> },
    Set { t: Box<Ty> },
    Map { key: String, t: Box<Ty> },
    Tuple { ts: Vec<Ty> },
    Array { n: usize, t: Box<Ty> },
    Wrap { t: Box<Ty> },
    Ref { id: usize },
    Any,
}

#[derive(Deserialize, Clone, Debug, Default)]
pub struct Field {
    pub ser: String,
    pub de: String,
    pub ty: Option<Ty>,
    #[serde(default)]
    pub skip_ser: bool,
    #[serde(default)]
    pub skip_de: bool,
    #[serde(default)]
    pub skip_if: bool,
    #[serde(default)]
    pub default: bool,
    #[serde(default)]
    pub flatten: bool,
    /// serde calls a custom function for this field, so a missing Option isn't implied
    #[serde(default)]
    pub with: bool,
}
impl Field {
    pub fn ty(&self) -> &Ty {
        self.ty.as_ref().unwrap()
    }
    pub fn name(&self, c: C) -> &str {
        if c == C::Ser { &self.ser } else { &self.de }
    }
    pub fn skipped(&self, c: C) -> bool {
        if c == C::Ser { self.skip_ser } else { self.skip_de }
    }
}

#[derive(Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Style {
    Named,
    Tuple,
    Newtype,
    Unit,
}

#[derive(Deserialize, Clone, Debug)]
pub struct Variant {
    pub ser: String,
    pub de: String,
    pub style: Style,
    pub fields: Vec<Field>,
    #[serde(default)]
    pub skip_ser: bool,
    #[serde(default)]
    pub skip_de: bool,
    #[serde(default)]
    pub untagged: bool,
}
impl Variant {
    pub fn name(&self, c: C) -> &str {
        if c == C::Ser { &self.ser } else { &self.de }
    }
    pub fn skipped(&self, c: C) -> bool {
        if c == C::Ser { self.skip_ser } else { self.skip_de }
    }
}

#[derive(Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Tag {
    External,
    Internal(String),
    Adjacent(String, String),
    Untagged,
}

#[derive(Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
pub enum Body {
    Struct { style: Style, fields: Vec<Field> },
    Enum { tag: Tag, variants: Vec<Variant> },
}

#[derive(Deserialize, Clone, Debug)]
pub struct Def {
    pub name: String,
    pub body: Body,
    #[serde(default)]
    pub deny: bool,
    #[serde(default)]
    pub default: bool,
    #[serde(default)]
    pub transparent: bool,
    #[serde(default)]
    pub from: Option<Ty>,
    #[serde(default)]
    pub try_from: bool,
    #[serde(default)]
    pub into: Option<Ty>,
    #[serde(default)]
    pub struct_tag: Option<String>,
    #[serde(default)]
    pub feats: Vec<String>,
    /// part of a cycle or reachable cycle
    #[serde(default)]
    pub recursive: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum C {
    Ser,
    De,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V3 {
    Yes,
    No,
    Unk,
}
use V3::*;
impl V3 {
    pub fn and(self, o: V3) -> V3 {
        match (self, o) {
            (No, _) | (_, No) => No,
            (Unk, _) | (_, Unk) => Unk,
            _ => Yes,
        }
    }
    pub fn or(self, o: V3) -> V3 {
        match (self, o) {
            (Yes, _) | (_, Yes) => Yes,
            (Unk, _) | (_, Unk) => Unk,
            _ => No,
        }
    }
    fn b(x: bool) -> V3 {
        if x { Yes } else { No }
    }
}

pub struct Model {
    pub defs: Vec<Def>,
}

type Obj = Map<String, Value>;

impl Model {
    pub fn parse(s: &str) -> Model {
        Model { defs: serde_json::from_str(s).expect("descriptors") }
    }

    fn int_range(name: &str) -> Option<(i128, i128, bool)> {
        // (min, max, range expressed in the schema on both sides)
        Some(match name {
            "u8" => (0, 255, true),
            "u16" => (0, 65535, true),
            "u32" => (0, u32::MAX as i128, false),
            "u64" | "usize" => (0, u64::MAX as i128, false),
            "i8" => (-128, 127, true),
            "i16" => (-32768, 32767, true),
            "i32" => (i32::MIN as i128, i32::MAX as i128, false),
            "i64" | "isize" => (i64::MIN as i128, i64::MAX as i128, false),
            _ => return None,
        })
    }

    fn int_of(v: &Value) -> Option<i128> {
        let n = v.as_number()?;
        n.as_i64().map(|x| x as i128).or_else(|| n.as_u64().map(|x| x as i128))
    }

    pub fn accept(&self, t: &Ty, v: &Value, c: C) -> V3 {
        match t {
            Ty::Any => Yes,
            Ty::Prim { name } => match name.as_str() {
                "bool" => V3::b(v.is_boolean()),
                "String" | "&'static str" => V3::b(v.is_string()),
                "char" => match v.as_str() {
                    Some(s) => V3::b(s.chars().count() == 1),
                    None => No,
                },
                "()" => V3::b(v.is_null()),
                "f32" | "f64" => V3::b(v.is_number()),
                n => {
                    let (lo, hi, both) = Self::int_range(n).expect("prim");
                    match Self::int_of(v) {
                        Some(x) if x >= lo && x <= hi => Yes,
                        Some(x) => {
                            if both || (lo == 0 && x < 0) { No } else { Unk }
                        }
                        None => match v.as_f64() {
                            Some(f) if f.fract() == 0.0 => Unk,
                            _ => No,
                        },
                    }
                }
            },
            Ty::Opt { t } => {
                if v.is_null() { Yes } else { self.accept(t, v, c) }
            }
            Ty::Wrap { t } => self.accept(t, v, c),
            Ty::Vec { t } => match v {
                Value::Array(a) => a.iter().fold(Yes, |r, x| r.and(self.accept(t, x, c))),
                _ => No,
            },
            Ty::Set { t } => match v {
                Value::Array(a) => {
                    let r = a.iter().fold(Yes, |r, x| r.and(self.accept(t, x, c)));
                    let mut seen = std::collections::HashSet::new();
                    let dup = a.iter().any(|x| !seen.insert(x.to_string()));
                    if dup { r.and(Unk) } else { r }
                }
                _ => No,
            },
            Ty::Map { key, t } => match v {
                Value::Object(o) => o
                    .iter()
                    .fold(Yes, |r, (k, x)| r.and(Self::accept_key(key, k)).and(self.accept(t, x, c))),
                _ => No,
            },
            Ty::Tuple { ts } => match v {
                Value::Array(a) if a.len() == ts.len() => {
                    ts.iter().zip(a).fold(Yes, |r, (t, x)| r.and(self.accept(t, x, c)))
                }
                _ => No,
            },
            Ty::Array { n, t } => match v {
                Value::Array(a) if a.len() == *n => a.iter().fold(Yes, |r, x| r.and(self.accept(t, x, c))),
                _ => No,
            },
            Ty::Ref { id } => self.accept_def(*id, v, c),
        }
    }

    fn accept_key(key: &str, k: &str) -> V3 {
        match key {
            "String" => Yes,
            // only string and integer keys are described by schemas
            "bool" if k == "true" || k == "false" => Yes,
            "char" if k.chars().count() == 1 => Yes,
            "bool" | "char" => Unk,
            n => {
                let (lo, hi, _) = Self::int_range(n).expect("key");
                let body = k.strip_prefix('-').unwrap_or(k);
                if body.is_empty() || !body.bytes().all(|b| b.is_ascii_digit()) {
                    return No;
                }
                if lo == 0 && k.starts_with('-') {
                    return if body.bytes().all(|b| b == b'0') { Unk } else { No };
                }
                if body.len() > 1 && body.starts_with('0') || k == "-0" {
                    return Unk;
                }
                match k.parse::<i128>() {
                    Ok(x) if x >= lo && x <= hi => Yes,
                    _ => Unk,
                }
            }
        }
    }

    pub fn accept_def(&self, id: usize, v: &Value, c: C) -> V3 {
        let d = &self.defs[id];
        if c == C::De {
            if let Some(t) = &d.from {
                return self.accept(t, v, c);
            }
        } else if let Some(t) = &d.into {
            return self.accept(t, v, c);
        }
        match &d.body {
            Body::Struct { style, fields } => {
                if d.transparent {
                    let f = Self::transparent_field(fields, c);
                    return self.accept(f.ty(), v, c);
                }
                match style {
                    Style::Unit => {
                        if let Some(tag) = &d.struct_tag {
                            let _ = tag;
                            return Unk;
                        }
                        V3::b(v.is_null())
                    }
                    Style::Newtype | Style::Tuple => self.accept_tuple(style, fields, d.default, v, c),
                    Style::Named => match v {
                        Value::Object(o) => {
                            let mut o = o.clone();
                            let mut r = Yes;
                            if let Some(tag) = &d.struct_tag {
                                // serde writes the tag, and ignores it when deserializing
                                match o.remove(tag) {
                                    Some(Value::String(s)) if s == d.name => {}
                                    _ if c == C::Ser => return No,
                                    _ => r = Unk,
                                }
                            }
                            r.and(self.accept_obj(fields, d.default, d.deny, &o, c))
                        }
                        _ => No,
                    },
                }
            }
            Body::Enum { tag, variants } => {
                let mut r = No;
                if *tag != Tag::Untagged {
                    r = self.accept_tagged(d, tag, variants, v, c, false);
                }
                for va in variants.iter().filter(|x| (x.untagged || *tag == Tag::Untagged) && !x.skipped(c)) {
                    r = r.or(self.accept_content(d, va, Some(v), c, &[]));
                }
                r
            }
        }
    }

    pub fn transparent_field(fields: &[Field], c: C) -> &Field {
        fields.iter().find(|f| !f.skipped(c)).expect("transparent field")
    }

    fn accept_tuple(&self, style: &Style, fields: &[Field], cdefault: bool, v: &Value, c: C) -> V3 {
        let fs: Vec<_> = fields.iter().filter(|f| !f.skipped(c)).collect();
        if *style == Style::Newtype {
            return self.accept(fs[0].ty(), v, c);
        }
        let Value::Array(a) = v else { return No };
        if a.len() > fs.len() {
            return No;
        }
        if a.len() < fs.len() {
            if c == C::De && fs[a.len()..].iter().all(|f| f.default || cdefault) {
                return fs.iter().zip(a).fold(Yes, |r, (f, x)| r.and(self.accept(f.ty(), x, c)));
            }
            return No;
        }
        fs.iter().zip(a).fold(Yes, |r, (f, x)| r.and(self.accept(f.ty(), x, c)))
    }

    fn accept_tagged(&self, d: &Def, tag: &Tag, variants: &[Variant], v: &Value, c: C, flat: bool) -> V3 {
        let vs: Vec<_> = variants.iter().filter(|x| !x.untagged && !x.skipped(c)).collect();
        match tag {
            Tag::External => match v {
                Value::String(s) if !flat => match vs.iter().find(|x| x.name(c) == s) {
                    Some(x) => V3::b(x.style == Style::Unit),
                    None => No,
                },
                Value::Object(o) => {
                    if !flat && o.len() != 1 {
                        return No;
                    }
                    let hits: Vec<_> = vs.iter().filter(|x| o.contains_key(x.name(c))).collect();
                    match hits.len() {
                        0 => No,
                        1 => {
                            let x = hits[0];
                            if x.style == Style::Unit {
                                if flat {
                                    return if o[x.name(c)].is_null() { Yes } else { Unk };
                                }
                                return if c == C::De && o[x.name(c)].is_null() { Unk } else { No };
                            }
                            self.accept_content(d, x, Some(&o[x.name(c)]), c, &[])
                        }
                        _ => Unk,
                    }
                }
                _ => No,
            },
            Tag::Internal(t) => {
                let Value::Object(o) = v else { return No };
                let Some(Value::String(s)) = o.get(t) else { return No };
                let Some(x) = vs.iter().find(|x| x.name(c) == s) else { return No };
                let mut o2 = o.clone();
                o2.remove(t);
                if flat {
                    return self.flat_variant(d, x, &o2, c).0;
                }
                match x.style {
                    Style::Unit => {
                        if d.deny && !o2.is_empty() { Unk } else { Yes }
                    }
                    _ => self.accept_content(d, x, Some(&Value::Object(o2)), c, &[]),
                }
            }
            Tag::Adjacent(t, k) => {
                let Value::Object(o) = v else { return No };
                let Some(Value::String(s)) = o.get(t) else { return No };
                let Some(x) = vs.iter().find(|x| x.name(c) == s) else { return No };
                if d.deny && !flat && o.keys().any(|q| q != t && q != k) {
                    return No;
                }
                match x.style {
                    Style::Unit => match o.get(k) {
                        None => Yes,
                        Some(_) => Unk,
                    },
                    _ => self.accept_content(d, x, o.get(k), c, &[]),
                }
            }
            Tag::Untagged => unreachable!(),
        }
    }

    /// Content of a variant (None = absent).
    fn accept_content(&self, d: &Def, x: &Variant, v: Option<&Value>, c: C, _ignore: &[&str]) -> V3 {
        let Some(v) = v else {
            if x.style == Style::Newtype && c == C::De && self.missing_ok(x.fields[0].ty()) {
                return Yes;
            }
            return No;
        };
        match x.style {
            Style::Unit => V3::b(v.is_null()),
            Style::Newtype | Style::Tuple => self.accept_tuple(&x.style, &x.fields, false, v, c),
            Style::Named => match v {
                Value::Object(o) => self.accept_obj(&x.fields, false, d.deny, o, c),
                _ => No,
            },
        }
    }

    /// Types whose absence serde treats as `None`.
    pub fn missing_ok(&self, t: &Ty) -> bool {
        match t {
            Ty::Opt { .. } => true,
            Ty::Wrap { t } => self.missing_ok(t),
            Ty::Ref { id } => {
                let d = &self.defs[*id];
                if let Some(f) = &d.from {
                    return self.missing_ok(f);
                }
                if d.transparent {
                    if let Body::Struct { fields, .. } = &d.body {
                        let f = Self::transparent_field(fields, C::De);
                        return !f.with && self.missing_ok(f.ty());
                    }
                }
                false
            }
            _ => false,
        }
    }

    fn accept_obj(&self, fields: &[Field], cdefault: bool, deny: bool, o: &Obj, c: C) -> V3 {
        let (r, claimed, map) = self.accept_fields(fields, cdefault, o, c);
        if r == No {
            return No;
        }
        let extra: Vec<_> = o.keys().filter(|k| !claimed.contains(k)).collect();
        if let Some(t) = map {
            return extra.iter().fold(r, |r, k| r.and(self.accept(&t, &o[*k], c)));
        }
        if deny && !extra.is_empty() {
            return No;
        }
        r
    }

    /// Verdict on a set of fields, the keys they own, and the value type of a flattened map, if any.
    fn accept_fields(&self, fields: &[Field], cdefault: bool, o: &Obj, c: C) -> (V3, Vec<String>, Option<Ty>) {
        let mut r = Yes;
        let mut claimed = Vec::new();
        let mut map = None;
        for f in fields.iter().filter(|f| !f.skipped(c)) {
            if f.flatten {
                let (q, cl, m) = self.accept_flat(f.ty(), o, c);
                r = r.and(q);
                claimed.extend(cl);
                if m.is_some() {
                    map = m;
                }
                continue;
            }
            let n = f.name(c);
            claimed.push(n.to_string());
            match o.get(n) {
                Some(v) => r = r.and(self.accept(f.ty(), v, c)),
                None => {
                    let ok = match c {
                        C::Ser => f.skip_if,
                        C::De => f.default || cdefault || (!f.with && self.missing_ok(f.ty())),
                    };
                    if !ok {
                        r = No;
                    }
                }
            }
        }
        (r, claimed, map)
    }

    fn accept_flat(&self, t: &Ty, o: &Obj, c: C) -> (V3, Vec<String>, Option<Ty>) {
        match t {
            Ty::Wrap { t } => self.accept_flat(t, o, c),
            Ty::Opt { t } => {
                let (r, cl, m) = self.accept_flat(t, o, c);
                if r == Yes {
                    return (Yes, cl, m);
                }
                if cl.iter().any(|k| o.contains_key(k)) {
                    (Unk, cl, m)
                } else {
                    (Yes, cl, m)
                }
            }
            Ty::Map { t, .. } => (Yes, vec![], Some((**t).clone())),
            Ty::Any => (Yes, vec![], Some(Ty::Any)),
            Ty::Ref { id } => {
                let d = &self.defs[*id];
                if c == C::De {
                    if let Some(t) = &d.from {
                        return self.accept_flat(t, o, c);
                    }
                } else if let Some(t) = &d.into {
                    return self.accept_flat(t, o, c);
                }
                match &d.body {
                    Body::Struct { style, fields } => {
                        if d.transparent {
                            return self.accept_flat(Self::transparent_field(fields, c).ty(), o, c);
                        }
                        match style {
                            Style::Named => {
                                let (r, mut cl, m) = self.accept_fields(fields, d.default, o, c);
                                if let Some(t) = &d.struct_tag {
                                    cl.push(t.clone());
                                    return (r.and(Unk), cl, m);
                                }
                                (r, cl, m)
                            }
                            Style::Newtype => self.accept_flat(fields[0].ty(), o, c),
                            _ => (Unk, vec![], None),
                        }
                    }
                    Body::Enum { tag, variants } => {
                        let mut cl: Vec<String> = Vec::new();
                        match tag {
                            Tag::Internal(t) => cl.push(t.clone()),
                            Tag::Adjacent(t, k) => cl.extend([t.clone(), k.clone()]),
                            _ => {}
                        }
                        for x in variants.iter().filter(|x| !x.skipped(c)) {
                            if *tag == Tag::External && !x.untagged {
                                cl.push(x.name(c).to_string());
                            } else if !matches!(tag, Tag::Adjacent(..)) || x.untagged {
                                cl.extend(self.flat_variant(d, x, o, c).1);
                            }
                        }
                        let mut r = No;
                        if *tag != Tag::Untagged {
                            r = self.accept_tagged(d, tag, variants, &Value::Object(o.clone()), c, true);
                        }
                        for x in variants.iter().filter(|x| (x.untagged || *tag == Tag::Untagged) && !x.skipped(c)) {
                            r = r.or(self.flat_variant(d, x, o, c).0);
                        }
                        (r, cl, None)
                    }
                }
            }
            _ => (Unk, vec![], None),
        }
    }

    fn flat_variant(&self, _d: &Def, x: &Variant, o: &Obj, c: C) -> (V3, Vec<String>) {
        match x.style {
            Style::Unit => (Yes, vec![]),
            Style::Named => {
                let (r, cl, _) = self.accept_fields(&x.fields, false, o, c);
                (r, cl)
            }
            Style::Newtype => {
                let (r, cl, _) = self.accept_flat(x.fields[0].ty(), o, c);
                (r, cl)
            }
            Style::Tuple => (Unk, vec![]),
        }
    }

    // ---------------------------------------------------------------- generation

    /// A document the model considers acceptable (best effort; filter with `accept`).
    pub fn gen(&self, t: &Ty, c: C, r: &mut Rng) -> Value {
        let small = r.fuel <= 0;
        r.fuel -= 1;
        match t {
            Ty::Any => pool(r),
            Ty::Prim { name } => gen_prim(name, r),
            Ty::Opt { t } => {
                if small || r.chance(1, 3) { Value::Null } else { self.gen(t, c, r) }
            }
            Ty::Wrap { t } => self.gen(t, c, r),
            Ty::Vec { t } => {
                let n = if small { 0 } else { r.below(3) };
                Value::Array((0..n).map(|_| self.gen(t, c, r)).collect())
            }
            Ty::Set { t } => {
                let n = if small { 0 } else { r.below(3) };
                let mut out: Vec<Value> = vec![];
                for _ in 0..n {
                    let v = self.gen(t, c, r);
                    if !out.contains(&v) {
                        out.push(v);
                    }
                }
                Value::Array(out)
            }
            Ty::Map { key, t } => {
                let n = if small { 0 } else { r.below(3) };
                let mut o = Map::new();
                for _ in 0..n {
                    o.insert(gen_key(key, r), self.gen(t, c, r));
                }
                Value::Object(o)
            }
            Ty::Tuple { ts } => Value::Array(ts.iter().map(|t| self.gen(t, c, r)).collect()),
            Ty::Array { n, t } => Value::Array((0..*n).map(|_| self.gen(t, c, r)).collect()),
            Ty::Ref { id } => self.gen_def(*id, c, r),
        }
    }

    pub fn gen_def(&self, id: usize, c: C, r: &mut Rng) -> Value {
        let d = &self.defs[id];
        if c == C::De {
            if let Some(t) = &d.from {
                return self.gen(t, c, r);
            }
        } else if let Some(t) = &d.into {
            return self.gen(t, c, r);
        }
        match &d.body {
            Body::Struct { style, fields } => {
                if d.transparent {
                    return self.gen(Self::transparent_field(fields, c).ty(), c, r);
                }
                let mut v = self.gen_content(style, fields, d.default, d.deny, c, r);
                if let (Some(t), Value::Object(o)) = (&d.struct_tag, &mut v) {
                    o.insert(t.clone(), json!(d.name));
                }
                v
            }
            Body::Enum { tag, variants } => {
                let vs: Vec<_> = variants.iter().filter(|x| !x.skipped(c)).collect();
                if vs.is_empty() {
                    return Value::Null;
                }
                // with no fuel prefer the cheapest variants
                let mut x = *r.pick(&vs);
                if r.fuel <= 0 {
                    x = vs.iter().min_by_key(|x| x.fields.len() * 2 + (x.style != Style::Unit) as usize).unwrap();
                }
                let name = x.name(c).to_string();
                let body = |me: &Self, r: &mut Rng| me.gen_content(&x.style, &x.fields, false, d.deny, c, r);
                if x.untagged {
                    return body(self, r);
                }
                match tag {
                    Tag::Untagged => body(self, r),
                    Tag::External => {
                        if x.style == Style::Unit { json!(name) } else { json!({ name: body(self, r) }) }
                    }
                    Tag::Internal(t) => {
                        let mut o = match body(self, r) {
                            Value::Object(o) => o,
                            _ => Map::new(),
                        };
                        o.insert(t.clone(), json!(name));
                        Value::Object(o)
                    }
                    Tag::Adjacent(t, k) => {
                        let mut o = Map::new();
                        o.insert(t.clone(), json!(name));
                        if x.style != Style::Unit {
                            if !(x.style == Style::Newtype
                                && c == C::De
                                && self.missing_ok(x.fields[0].ty())
                                && r.chance(1, 2))
                            {
                                o.insert(k.clone(), body(self, r));
                            }
                        }
                        if !d.deny && c == C::De && r.chance(1, 8) {
                            o.insert("zz_extra".into(), pool(r));
                        }
                        Value::Object(o)
                    }
                }
            }
        }
    }

    fn gen_content(&self, style: &Style, fields: &[Field], cdefault: bool, deny: bool, c: C, r: &mut Rng) -> Value {
        match style {
            Style::Unit => Value::Null,
            Style::Newtype => {
                let f = fields.iter().find(|f| !f.skipped(c)).unwrap();
                self.gen(f.ty(), c, r)
            }
            Style::Tuple => {
                let fs: Vec<_> = fields.iter().filter(|f| !f.skipped(c)).collect();
                let mut a: Vec<Value> = fs.iter().map(|f| self.gen(f.ty(), c, r)).collect();
                if c == C::De && r.chance(1, 4) {
                    while !a.is_empty() && (cdefault || fs[a.len() - 1].default) && r.chance(2, 3) {
                        a.pop();
                    }
                }
                Value::Array(a)
            }
            Style::Named => {
                let mut o = Map::new();
                self.gen_fields(fields, cdefault, c, r, &mut o);
                let has_map = fields.iter().any(|f| f.flatten && matches!(f.ty(), Ty::Map { .. } | Ty::Any));
                if !deny && c == C::De && !has_map && r.chance(1, 6) {
                    o.insert(format!("zz_extra{}", r.below(3)), pool(r));
                }
                Value::Object(o)
            }
        }
    }

    fn gen_fields(&self, fields: &[Field], cdefault: bool, c: C, r: &mut Rng, o: &mut Obj) {
        for f in fields.iter().filter(|f| !f.skipped(c)) {
            if f.flatten {
                self.gen_flat(f.ty(), c, r, o);
                continue;
            }
            let optional = match c {
                C::Ser => f.skip_if,
                C::De => f.default || cdefault || (!f.with && self.missing_ok(f.ty())),
            };
            if optional && r.chance(2, 5) {
                continue;
            }
            o.insert(f.name(c).to_string(), self.gen(f.ty(), c, r));
        }
    }

    fn gen_flat(&self, t: &Ty, c: C, r: &mut Rng, o: &mut Obj) {
        match t {
            Ty::Wrap { t } => self.gen_flat(t, c, r, o),
            Ty::Opt { t } => {
                if r.fuel > 0 && r.chance(2, 3) {
                    self.gen_flat(t, c, r, o)
                }
            }
            Ty::Map { t, .. } => {
                for i in 0..r.below(3) {
                    o.insert(format!("m_{i}{}", r.below(4)), self.gen(t, c, r));
                }
            }
            Ty::Any => {
                for i in 0..r.below(2) {
                    o.insert(format!("m_{i}"), pool(r));
                }
            }
            Ty::Ref { id } => {
                let d = &self.defs[*id];
                if let (C::De, Some(t)) = (c, &d.from) {
                    return self.gen_flat(t, c, r, o);
                }
                if let (C::Ser, Some(t)) = (c, &d.into) {
                    return self.gen_flat(t, c, r, o);
                }
                match &d.body {
                    Body::Struct { fields, .. } if d.transparent => {
                        self.gen_flat(Self::transparent_field(fields, c).ty(), c, r, o)
                    }
                    Body::Struct { style: Style::Named, fields } => self.gen_fields(fields, d.default, c, r, o),
                    Body::Struct { style: Style::Newtype, fields } => self.gen_flat(fields[0].ty(), c, r, o),
                    _ => match self.gen_def(*id, c, r) {
                        Value::Object(m) => o.extend(m),
                        Value::String(s) => {
                            o.insert(s, Value::Null);
                        }
                        _ => {}
                    },
                }
            }
            _ => {}
        }
    }
}

pub fn gen_key(key: &str, r: &mut Rng) -> String {
    match key {
        "String" => format!("m_{}", r.pick(&["a", "b", "é", "x y", "0", "", "/~"])),
        "bool" => r.chance(1, 2).to_string(),
        "char" => r.pick(&["a", "0", "é", "\u{1F600}", "/"]).to_string(),
        n => gen_prim(n, r).to_string(),
    }
}

pub fn gen_prim(name: &str, r: &mut Rng) -> Value {
    match name {
        "bool" => json!(r.chance(1, 2)),
        "String" => json!(*r.pick(&["", "a", "hello", "é✓", "x\"y\\", "0", "null"])),
        "char" => json!(*r.pick(&["a", "é", "\u{1F600}", "\"", "0"])),
        "()" => Value::Null,
        "f32" | "f64" => json!(*r.pick(&[0.0f64, 1.5, -2.25, 1024.0, 0.125])),
        n => {
            let (lo, hi, _) = Model::int_range(n).unwrap();
            match r.below(5) {
                0 => num(lo),
                1 => num(hi),
                2 => num((lo + 1).min(hi)),
                _ => num((r.below(100) as i128).clamp(lo, hi)),
            }
        }
    }
}
fn num(x: i128) -> Value {
    if x < 0 { json!(x as i64) } else { json!(x as u64) }
}

/// Arbitrary JSON of every kind.
pub fn pool(r: &mut Rng) -> Value {
    match r.below(14) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(false),
        3 => json!(0),
        4 => json!(-1),
        5 => json!(1.5),
        6 => json!(300),
        7 => json!(""),
        8 => json!("zz"),
        9 => json!([]),
        10 => json!({}),
        11 => json!([null, 1]),
        12 => json!({"zz": 1}),
        _ => json!("a"),
    }
}

// -------------------------------------------------------------------- mutation

fn paths(v: &Value, p: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(p.clone());
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                p.push(k.clone());
                paths(x, p, out);
                p.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                p.push(i.to_string());
                paths(x, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    let mut x = v;
    for t in p {
        x = match x {
            Value::Object(o) => o.get_mut(t).unwrap(),
            Value::Array(a) => &mut a[t.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    x
}

/// Applies one random structural fault; returns a short description.
pub fn mutate(v: &mut Value, words: &[String], r: &mut Rng) -> String {
    let mut ps = Vec::new();
    paths(v, &mut vec![], &mut ps);
    // favour containers, where the structural faults are
    let p = {
        let mut best = r.pick(&ps).clone();
        for _ in 0..2 {
            let q = r.pick(&ps).clone();
            if q.len() < best.len() && r.chance(1, 2) {
                best = q;
            }
        }
        best
    };
    let n = at(v, &p);
    let d = |s: &str| format!("{s} at /{}", p.join("/"));
    match n {
        Value::Object(o) if r.chance(4, 5) => {
            let ks: Vec<String> = o.keys().cloned().collect();
            match r.below(6) {
                0 | 1 if !ks.is_empty() => {
                    let k = r.pick(&ks).clone();
                    o.remove(&k);
                    d(&format!("delete {k:?}"))
                }
                2 if !ks.is_empty() => {
                    let k = r.pick(&ks).clone();
                    let x = o.remove(&k).unwrap();
                    let nk = if words.is_empty() || r.chance(1, 2) { format!("{k}_zz") } else { r.pick(words).clone() };
                    o.insert(nk.clone(), x);
                    d(&format!("rename {k:?} to {nk:?}"))
                }
                3 if !ks.is_empty() => {
                    let k = r.pick(&ks).clone();
                    o.insert(k.clone(), pool(r));
                    d(&format!("replace {k:?}"))
                }
                4 if !words.is_empty() => {
                    let k = r.pick(words).clone();
                    let x = if r.chance(1, 2) && !ks.is_empty() { o[r.pick(&ks)].clone() } else { pool(r) };
                    o.insert(k.clone(), x);
                    d(&format!("add {k:?}"))
                }
                _ => {
                    o.insert("zz_unknown".into(), pool(r));
                    d("add unknown")
                }
            }
        }
        Value::Array(a) if r.chance(4, 5) => match r.below(4) {
            0 if !a.is_empty() => {
                a.pop();
                d("pop")
            }
            1 if !a.is_empty() => {
                let x = r.pick(a).clone();
                a.push(x);
                d("dup-push")
            }
            2 if a.len() > 1 => {
                let i = r.below(a.len());
                let j = r.below(a.len());
                a.swap(i, j);
                d("swap")
            }
            _ => {
                a.push(pool(r));
                d("push")
            }
        },
        Value::String(s) if r.chance(2, 3) => {
            if words.is_empty() || r.chance(1, 3) {
                s.push_str("zz");
            } else {
                *s = r.pick(words).clone();
            }
            d("string")
        }
        _ => {
            let kind = |v: &Value| match v {
                Value::Null => 0,
                Value::Bool(_) => 1,
                Value::Number(_) => 2,
                Value::String(_) => 3,
                Value::Array(_) => 4,
                Value::Object(_) => 5,
            };
            let k0 = kind(n);
            for _ in 0..8 {
                let x = pool(r);
                if kind(&x) != k0 || r.chance(1, 6) {
                    *n = x;
                    break;
                }
            }
            d("retype")
        }
    }
}
