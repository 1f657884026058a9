//! C16: validation attributes. The constraints are evaluated directly on the documents; a second
//! regex engine (ECMA-262 in unicode mode) judges the patterns afterwards (see plans.py).
use crate::corpus::Cfg;
use crate::model::C;
use crate::val::Dia;
use crate::{guarded, Report, Rng};
use schemars::generate::SchemaGenerator;
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct Ops {
    id: usize,
    root: fn(SchemaGenerator) -> Schema,
    plain: fn(SchemaGenerator) -> Schema,
}
impl Ops {
    pub fn new<T: JsonSchema, P: JsonSchema>(id: usize) -> Ops {
        Ops { id, root: |g| g.into_root_schema_for::<T>(), plain: |g| g.into_root_schema_for::<P>() }
    }
}

struct M {
    defs: Vec<Value>,
    c: std::cell::Cell<C>,
    res: std::cell::RefCell<BTreeMap<String, regex::Regex>>,
}
const NONE: &Value = &Value::Null;

fn num(v: &Value) -> f64 {
    v.as_f64().unwrap()
}
/// Whether the limit `[min, max]` admits the number.
fn within(limit: &Value, v: &Value) -> bool {
    let cmp = |l: &Value| match (l.as_i64().map(i128::from).or(l.as_u64().map(i128::from)), v.as_i64().map(i128::from).or(v.as_u64().map(i128::from))) {
        (Some(a), Some(b)) => b.cmp(&a),
        _ => num(v).partial_cmp(&num(l)).unwrap(),
    };
    (limit[0].is_null() || cmp(&limit[0]).is_ge()) && (limit[1].is_null() || cmp(&limit[1]).is_le())
}

impl M {
    fn matches(&self, re: &str, s: &str) -> bool {
        self.res.borrow_mut().entry(re.into()).or_insert_with(|| regex::Regex::new(re).unwrap()).is_match(s)
    }
    /// Does the described (and constrained) type have this document?
    fn accept(&self, ty: &Value, cons: &Value, v: &Value) -> bool {
        match ty["k"].as_str().unwrap() {
            "opt" => if v.is_null() { cons["required"] != true } else { self.accept(&ty["of"], cons, v) },
            k @ ("str" | "char") => {
                let Some(s) = v.as_str() else { return false };
                let n = s.chars().count();
                (k != "char" || n == 1)
                    && (cons["len"].is_null() || within(&cons["len"], &json!(n)))
                    && cons["re"].as_str().map_or(true, |re| self.matches(re, s))
                    && cons["has"].as_str().map_or(true, |x| s.contains(x))
            }
            "int" => {
                let Some(n) = v.as_i64().map(i128::from).or(v.as_u64().map(i128::from)) else { return false };
                let b = |x: &Value| x.as_i64().map(i128::from).or(x.as_u64().map(i128::from)).unwrap();
                n >= b(&ty["lo"]) && n <= b(&ty["hi"]) && (ty["nz"].is_null() || n != 0) && (cons["range"].is_null() || within(&cons["range"], v))
            }
            "float" => v.is_number() && (cons["range"].is_null() || within(&cons["range"], v)),
            "bool" => v.is_boolean(),
            "arr" => {
                let Some(a) = v.as_array() else { return false };
                a.iter().all(|x| self.accept(&ty["item"], &cons["inner"], x))
                    && ty["n"].as_u64().map_or(true, |n| a.len() as u64 == n)
                    && (ty["set"].is_null() || a.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>().len() == a.len())
                    && (cons["len"].is_null() || within(&cons["len"], &json!(a.len())))
            }
            "map" => v.as_object().is_some_and(|o| o.values().all(|x| self.accept(&ty["of"], NONE, x))),
            "host" => self.host(ty["i"].as_u64().unwrap() as usize, v),
            k => panic!("{k}"),
        }
    }
    /// May a member of this type be absent when deserializing?
    fn optional(&self, ty: &Value, cons: &Value) -> bool {
        cons["required"] != true
            && match ty["k"].as_str().unwrap() {
                "opt" => true,
                // a transparent type is what its only field is
                "host" => {
                    let d = &self.defs[ty["i"].as_u64().unwrap() as usize];
                    d["kind"] == "transparent" && self.optional(&d["fields"][0]["ty"], &d["fields"][0]["cons"])
                }
                _ => false,
            }
    }
    fn members(&self, d: &Value, o: &Map<String, Value>, c: C) -> bool {
        d["fields"].as_array().unwrap().iter().all(|f| match o.get(f["name"].as_str().unwrap()) {
            Some(x) => self.accept(&f["ty"], &f["cons"], x),
            None => c == C::De && (f["filled"] == true || self.optional(&f["ty"], &f["cons"])),
        }) && (d["flat"].is_null() || {
            let i = d["flat"]["i"].as_u64().unwrap() as usize;
            // an optional flattened part only restricts the members that are present
            if d["flat"]["required"] == true {
                self.members(&self.defs[i], o, c)
            } else {
                self.defs[i]["fields"].as_array().unwrap().iter().all(|f| o.get(f["name"].as_str().unwrap()).map_or(true, |x| self.accept(&f["ty"], &f["cons"], x)))
            }
        })
    }
    fn host(&self, i: usize, v: &Value) -> bool {
        let c = self.c.get();
        let d = &self.defs[i];
        let fields = d["fields"].as_array().unwrap();
        let one = |v: &Value| self.accept(&fields[0]["ty"], &fields[0]["cons"], v);
        let all = |v: &Value| v.as_object().is_some_and(|o| self.members(d, o, c));
        let tuple = |v: &Value| v.as_array().is_some_and(|a| a.len() == fields.len() && a.iter().zip(fields).all(|(x, f)| self.accept(&f["ty"], &f["cons"], x)));
        let ext = |v: &Value, f: &dyn Fn(&Value) -> bool| v == "Other" || v.as_object().is_some_and(|o| o.len() == 1 && o.get("V").is_some_and(f));
        let adj = |v: &Value, f: &dyn Fn(&Value) -> bool, opt: bool| match (v["t"].as_str(), v.get("c")) {
            (Some("V"), Some(c)) => f(c),
            // a missing content is read as `None`
            (Some("V"), None) => c == C::De && opt,
            (Some("Other"), _) => true,
            _ => false,
        };
        match d["kind"].as_str().unwrap() {
            "struct" | "generic" => all(v),
            "tuple" => tuple(v),
            "newtype" | "untaggednew" => one(v),
            // a transparent struct is that of its field
            "transparent" => one(v),
            "ext" => ext(v, &all),
            "extnew" => ext(v, &one),
            "exttuple" => ext(v, &tuple),
            "adj" => adj(v, &all, false),
            "adjnew" => adj(v, &one, self.optional(&fields[0]["ty"], &fields[0]["cons"])),
            "int" => v["tag"] == "Other" || v["tag"] == "V" && all(v),
            "untagged" => all(v),
            k => panic!("{k}"),
        }
    }

    // ---- documents around the limits
    fn strings(&self, r: &mut Rng, cons: &Value, out: &mut Vec<Value>) {
        let mut lens: Vec<usize> = vec![0, 1, 2, r.below(6)];
        for l in [&cons["len"][0], &cons["len"][1]] {
            if let Some(n) = l.as_u64() {
                let n = n as usize;
                lens.extend([n.saturating_sub(1), n, n + 1]);
            }
        }
        lens.sort();
        lens.dedup();
        let alphabets = [&["a", "b", "c"][..], &["1", "0", "9"], &["é", "日", "😀", "a"], &["x", "y", ".", "-"], &["\u{301}", "🇨🇭", "Z"]];
        for n in lens {
            for _ in 0..2 {
                let al = *r.pick(&alphabets);
                // by scalar value
                let s: String = (0..n).map(|_| r.pick(al).chars().next().unwrap()).collect();
                out.push(json!(s));
            }
        }
        for s in ["a", "abc", "abcd", "12", "x", "yy", "xyy", "ab", "ba", "a12b", "A", " a", "a ", "bb", "cab", "9", "x1", "b", "\n", "a\n"] {
            if r.chance(1, 2) {
                out.push(json!(s));
            }
        }
        if let Some(x) = cons["has"].as_str() {
            let up: String = x.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c }).collect();
            let cut: String = x.chars().skip(1).collect();
            let any: String = x.chars().map(|c| if c.is_alphanumeric() { c } else { 'a' }).collect();
            let bare: String = x.chars().filter(|c| c.is_alphanumeric()).collect();
            for s in [x.to_string(), format!("a{x}"), format!("{x}b"), format!("q\n{x}\u{2028}é"), x.repeat(2), up, cut, any, bare, format!("{}\\{x}", &x[..0]), x.replace(['*', '?', '+'], ""), x.replace('.', "x"), x.replace('|', ""), x.replace('\\', "")] {
                out.push(json!(s));
            }
        }
    }
    fn docs(&self, r: &mut Rng, ty: &Value, cons: &Value, d: usize) -> Vec<Value> {
        let mut out = Vec::new();
        match ty["k"].as_str().unwrap() {
            "opt" => {
                out = self.docs(r, &ty["of"], cons, d);
                out.push(json!(null));
            }
            "str" => self.strings(r, cons, &mut out),
            "char" => {
                for s in ["a", "b", "1", "é", "😀", "", "ab", "x", "-", ".", "日", "\n"] {
                    out.push(json!(s));
                }
                self.strings(r, cons, &mut out);
            }
            "int" => {
                let b = |x: &Value| x.as_i64().map(i128::from).or(x.as_u64().map(i128::from)).unwrap();
                let (lo, hi) = (b(&ty["lo"]), b(&ty["hi"]));
                let mut ns = vec![0, 1, -1, 2, 5, 7, lo, hi, lo + 1, hi - 1, r.below(300) as i128 - 100];
                // only the small types have limits of their own in the schema
                if hi <= 65535 {
                    ns.extend([lo - 1, hi + 1]);
                } else if lo >= 0 {
                    ns.push(lo - 1);
                }
                for l in [&cons["range"][0], &cons["range"][1]] {
                    if !l.is_null() {
                        let n = b(l);
                        ns.extend([n - 1, n, n + 1]);
                    }
                }
                ns.retain(|n| hi <= 65535 || (*n <= hi && (lo < 0 && *n >= lo || lo >= 0)));
                out.extend(ns.into_iter().filter_map(|n| i64::try_from(n).map(Value::from).or_else(|_| u64::try_from(n).map(Value::from)).ok()));
            }
            "float" => {
                let mut ns = vec![0.0, 0.5, -0.5, 1.0, 7.0, 1e6, -1e6, 0.49, 3.25];
                for l in [&cons["range"][0], &cons["range"][1]] {
                    if let Some(n) = l.as_f64() {
                        ns.extend([n, n + 0.125, n - 0.125, n + 1e-9, n - 1e-9]);
                    }
                }
                out.extend(ns.into_iter().map(|n| json!(n)));
                out.push(json!(1));
                out.push(json!(-6));
            }
            "bool" => out.extend([json!(true), json!(false)]),
            "arr" => {
                let items = self.docs(r, &ty["item"], &cons["inner"], d + 1);
                let (good, bad): (Vec<_>, Vec<_>) = items.into_iter().partition(|x| self.accept(&ty["item"], &cons["inner"], x));
                let mut lens = vec![0, 1, 2, 3];
                lens.extend(ty["n"].as_u64().map(|n| n as usize));
                for l in [&cons["len"][0], &cons["len"][1]] {
                    if let Some(n) = l.as_u64() {
                        lens.extend([(n as usize).saturating_sub(1), n as usize, n as usize + 1]);
                    }
                }
                lens.sort();
                lens.dedup();
                let mk = |r: &mut Rng, n: usize| -> Option<Vec<Value>> {
                    let mut v: Vec<Value> = Vec::new();
                    for _ in 0..n * 8 {
                        if v.len() < n && !good.is_empty() {
                            let x = r.pick(&good).clone();
                            if ty["set"].is_null() || !v.contains(&x) {
                                v.push(x);
                            }
                        }
                    }
                    (v.len() == n).then_some(v)
                };
                for n in &lens {
                    if let Some(v) = mk(r, *n) {
                        out.push(json!(v));
                    }
                }
                let fit: Vec<usize> = lens.iter().copied().filter(|n| *n > 0 && ty["n"].as_u64().map_or(true, |k| *n as u64 == k) && (cons["len"].is_null() || within(&cons["len"], &json!(n)))).collect();
                for b in bad.iter().chain(good.iter()).take(if d == 0 { 24 } else { 6 }) {
                    if fit.is_empty() {
                        break;
                    }
                    let n = *r.pick(&fit);
                    if let Some(mut v) = mk(r, n) {
                        let i = r.below(v.len());
                        v[i] = b.clone();
                        out.push(json!(v));
                    }
                }
            }
            "map" => {
                out.push(json!({}));
                for x in self.docs(r, &ty["of"], NONE, d + 1).into_iter().take(5) {
                    let k = *r.pick(&["k", "", "a b", "1"]);
                    out.push(json!({ k: x }));
                }
            }
            "host" => {
                if let Some(v) = self.valid_host(r, ty["i"].as_u64().unwrap() as usize) {
                    out.push(v);
                }
            }
            k => panic!("{k}"),
        }
        if d == 0 {
            out.extend([json!(null), json!("a"), json!(1), json!([]), json!({}), json!(true), json!([1]), json!(0.5), json!(-1), json!("")]);
        }
        out
    }
    fn valid(&self, r: &mut Rng, ty: &Value, cons: &Value) -> Option<Value> {
        let mut ok: Vec<Value> = self.docs(r, ty, cons, 1);
        ok.retain(|v| self.accept(ty, cons, v));
        if ok.is_empty() { None } else { Some(r.pick(&ok).clone()) }
    }
    fn wrap(&self, i: usize, payload: Value) -> Value {
        match self.defs[i]["kind"].as_str().unwrap() {
            "ext" | "extnew" | "exttuple" => json!({ "V": payload }),
            "adj" | "adjnew" => json!({"t": "V", "c": payload}),
            "int" => {
                let mut p = payload;
                p["tag"] = json!("V");
                p
            }
            _ => payload,
        }
    }
    fn parts(&self, i: usize) -> Vec<(String, &Value)> {
        let d = &self.defs[i];
        let mut v: Vec<(String, &Value)> = d["fields"].as_array().unwrap().iter().map(|f| (f["name"].as_str().unwrap().to_string(), f)).collect();
        if !d["flat"].is_null() {
            v.extend(self.parts(d["flat"]["i"].as_u64().unwrap() as usize));
        }
        v
    }
    fn assemble(&self, i: usize, vals: &[(String, Option<Value>)]) -> Option<Value> {
        Some(match self.defs[i]["kind"].as_str().unwrap() {
            "tuple" | "exttuple" => self.wrap(i, Value::Array(vals.iter().map(|v| v.1.clone()).collect::<Option<_>>()?)),
            "newtype" | "transparent" | "extnew" | "adjnew" | "untaggednew" => self.wrap(i, vals[0].1.clone()?),
            _ => self.wrap(i, Value::Object(vals.iter().filter_map(|(k, v)| v.clone().map(|v| (k.clone(), v))).collect())),
        })
    }
    fn valid_host(&self, r: &mut Rng, i: usize) -> Option<Value> {
        let mut vals = Vec::new();
        for (k, f) in self.parts(i) {
            vals.push((k, Some(self.valid(r, &f["ty"], &f["cons"])?)));
        }
        self.assemble(i, &vals)
    }
}

/// The schema of member `k` of a described host.
fn member<'a>(kind: &str, schema: &'a Value, k: &str, idx: usize) -> Option<&'a Value> {
    match kind {
        "struct" | "generic" => schema["properties"].get(k),
        "tuple" => schema["prefixItems"].get(idx).or_else(|| schema["items"].get(idx)),
        "newtype" | "transparent" => Some(schema),
        "ext" | "int" | "adj" | "exttuple" | "extnew" | "adjnew" => {
            let v = schema["oneOf"].as_array()?.iter().find(|v| v["properties"]["V"] != Value::Null || v["properties"]["tag"]["const"] == "V" || v["properties"]["tag"]["enum"][0] == "V" || v["properties"]["t"]["const"] == "V" || v["properties"]["t"]["enum"][0] == "V")?;
            let p = match kind {
                "int" => v,
                "adj" | "adjnew" => &v["properties"]["c"],
                _ => &v["properties"]["V"],
            };
            match kind {
                "exttuple" => p["prefixItems"].get(idx).or_else(|| p["items"].get(idx)),
                "extnew" | "adjnew" => Some(p),
                _ => p["properties"].get(k),
            }
        }
        "untagged" => schema["anyOf"][0]["properties"].get(k),
        "untaggednew" => schema["anyOf"].get(0),
        _ => None,
    }
}

fn formats(schema: &Value, cons: &Value, ty: &Value, f: &mut impl FnMut(&Value, &str)) {
    let base = if ty["k"] == "opt" { &ty["of"] } else { ty };
    if let Some(x) = cons["fmt"].as_str() {
        f(schema, x);
    }
    if !cons["inner"].is_null() {
        formats(&schema["items"], &cons["inner"], &base["item"], f);
    }
}
fn patterns(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Object(o) => {
            if let Some(p) = o.get("pattern").and_then(Value::as_str) {
                out.insert(p.to_string());
            }
            o.values().for_each(|x| patterns(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| patterns(x, out)),
        _ => {}
    }
}
fn containments(cons: &Value, out: &mut Vec<String>) {
    if let Some(s) = cons["has"].as_str() {
        out.push(s.to_string());
    }
    if !cons["inner"].is_null() {
        containments(&cons["inner"], out);
    }
}

pub fn main(ops: Vec<Ops>, model: &str) {
    crate::report::hook();
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let prog = std::env::args().next().unwrap().rsplit('/').next().unwrap().to_string();
    let mut rep = Report::new(&prop);
    let mut rng = Rng::from_env(&prog);
    let m = M { defs: serde_json::from_str(model).unwrap(), c: std::cell::Cell::new(C::De), res: Default::default() };
    let only = std::env::var("VH_ONLY").ok();
    let mut pats: BTreeMap<String, Value> = BTreeMap::new();
    for o in &ops {
        if only.as_ref().is_some_and(|x| m.defs[o.id]["rust"] != **x) {
            continue;
        }
        one(&mut rep, &mut rng, &prog, &m, o, &mut pats);
    }
    // judged by another regex engine afterwards
    if let Ok(out) = std::env::var("VH_OUT") {
        std::fs::write(format!("{out}.patterns"), serde_json::to_string(&pats.values().collect::<Vec<_>>()).unwrap()).unwrap();
    }
    rep.finish();
}

fn one(rep: &mut Report, rng: &mut Rng, prog: &str, m: &M, o: &Ops, pats: &mut BTreeMap<String, Value>) {
    let d = &m.defs[o.id];
    let (kind, rust) = (d["kind"].as_str().unwrap(), d["rust"].as_str().unwrap());
    rep.count(&format!("hosts-{kind}"));
    for cfg in Cfg::all() {
        if cfg.dia == Dia::OA3 {
            continue;
        }
        for c in [C::De, C::Ser] {
            let what = format!("{prog} {rust} ({kind}) under {}:{c:?}", cfg.name());
            rep.breadcrumb(&what);
            m.c.set(c);
            let get = |f: fn(SchemaGenerator) -> Schema| guarded(|| f(cfg.settings(c).into_generator()).to_value());
            let (Ok(s), Ok(p)) = (get(o.root), get(o.plain)) else {
                rep.violation(&format!("panics:{prog}:{rust}"), &format!("{what}: schema generation panicked"), json!(null));
                continue;
            };
            let v = match crate::val::compile(&s, cfg.dia) {
                Ok(v) => v,
                Err(e) => {
                    rep.violation(&format!("uncompilable:{prog}:{rust}"), &format!("{what}: {e}"), json!(s));
                    continue;
                }
            };
            // unrelated members and definitions are those of the type without the attributes
            let defs = |v: &Value| v.get("$defs").or(v.get("definitions")).and_then(Value::as_object).cloned().unwrap_or_default();
            let (sd, pd) = (defs(&s), defs(&p));
            // (a required member of an optional type shows that type in place)
            // (a transparent type without any attributes is its field's type, and shown in its place)
            let shown = |k: &String| kind == "transparent" && !pd.contains_key(k);
            if sd.iter().any(|(k, x)| pd.get(k) != Some(x) && !shown(k)) || (sd.len() != pd.len() && kind != "transparent" && !d["fields"].as_array().unwrap().iter().any(|f| f["cons"]["required"] == true)) {
                rep.violation(&format!("definitions:{prog}:{rust}"), &format!("{what}: the attributes change the definitions"), json!({"schema": s, "plain": p}));
            }
            for (i, f) in d["fields"].as_array().unwrap().iter().enumerate() {
                let k = f["name"].as_str().unwrap();
                if d["flat"].is_null() && kind != "generic" {
                    let (a, b) = (member(kind, &s, k, i), member(kind, &p, k, i));
                    if a.is_none() || b.is_none() {
                        if c == C::De || f["cons"]["required"] != true {
                            rep.count("members-not-located");
                        }
                    } else if f["attrs"] != true {
                        rep.count("unrelated-members");
                        if a != b {
                            rep.violation(&format!("leak:{prog}:{rust}:{k}"), &format!("{what}: member {k} has no attributes but its schema differs from that in the plain type"), json!({"schema": s, "plain": p}));
                        }
                    } else if let Some(a) = a {
                        // `format` only annotates
                        formats(a, &f["cons"], &f["ty"], &mut |x, want| {
                            rep.count("formats");
                            if x["format"] != want {
                                rep.violation(&format!("format:{prog}:{rust}:{k}"), &format!("{what}: member {k} should have format {want}"), json!({"schema": s, "member": a}));
                            }
                        });
                    }
                }
                if cfg.dia == Dia::D20 && !cfg.inline {
                    let mut subs = Vec::new();
                    containments(&f["cons"], &mut subs);
                    if subs.len() == 1 && m.parts(o.id).len() > 0 {
                        let mut found = BTreeSet::new();
                        if let Some(x) = member(kind, &s, k, i) {
                            patterns(x, &mut found);
                        }
                        if found.len() == 1 {
                            let mut samples = Vec::new();
                            m.strings(rng, &json!({"has": subs[0]}), &mut samples);
                            let exp: Vec<Value> = samples.into_iter().map(|x| json!([x, x.as_str().unwrap().contains(&subs[0])])).collect();
                            let pat = found.into_iter().next().unwrap();
                            pats.insert(format!("{pat} {}", subs[0]), json!({"pattern": pat, "contains": subs[0], "where": what, "samples": exp}));
                        }
                    }
                }
            }
            // documents
            let parts = m.parts(o.id);
            let mut base = Vec::new();
            for (k, f) in &parts {
                match m.valid(rng, &f["ty"], &f["cons"]) {
                    Some(v) => base.push((k.clone(), Some(v))),
                    None => rep.count("unsatisfiable-members"),
                }
            }
            if base.len() != parts.len() {
                continue;
            }
            let optional_flat = !d["flat"].is_null() && d["flat"]["required"] != true;
            let judge = |rep: &mut Report, doc: &Value, ctx: &str, cell: &str| {
                let want = m.host(o.id, doc);
                let got = v.is_valid(doc);
                rep.case(&format!("{what} {doc}"), true);
                rep.count(if want { "accepted" } else { "refused" });
                if !cell.is_empty() {
                    rep.count(&format!("{cell}-{}", if want { "ok" } else { "no" }));
                }
                if got != want {
                    rep.violation(
                        &format!("{}:{prog}:{rust}:{ctx}", if want { "rejects" } else { "accepts" }),
                        &format!("{what}: the constraints {} but the schema {} {doc} (member {ctx})", if want { "hold" } else { "do not hold" }, if got { "accepts" } else { "rejects" }),
                        json!({"schema": s, "doc": doc, "member": ctx, "model": d}),
                    );
                }
            };
            for (i, (k, f)) in parts.iter().enumerate() {
                let cell = f["cons"].as_object().map(|c| c.keys().cloned().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join("+")).unwrap_or_default();
                let mut docs = m.docs(rng, &f["ty"], &f["cons"], 0);
                let n = Report::scale(40, 120);
                while docs.len() > n {
                    let i = rng.below(docs.len());
                    docs.swap_remove(i);
                }
                for x in docs {
                    // whole numbers written as floats, or floats for integers
                    if f["ty"]["k"] == "int" && x.is_f64() && x.as_f64().unwrap().fract() == 0.0 {
                        continue;
                    }
                    let mut vals = base.clone();
                    vals[i].1 = Some(x);
                    if let Some(doc) = m.assemble(o.id, &vals) {
                        judge(rep, &doc, k, &cell);
                    }
                }
                if matches!(kind, "struct" | "generic" | "ext" | "adj" | "int" | "untagged") && !(optional_flat && i >= d["fields"].as_array().unwrap().len()) {
                    let mut vals = base.clone();
                    vals[i].1 = None;
                    judge(rep, &m.assemble(o.id, &vals).unwrap(), k, if f["cons"]["required"] == true { "required-absent" } else { "absent" });
                }
            }
            if optional_flat {
                let mut vals = base.clone();
                for x in vals.iter_mut().skip(d["fields"].as_array().unwrap().len()) {
                    x.1 = None;
                }
                judge(rep, &m.assemble(o.id, &vals).unwrap(), "fl", "flat-none");
            }
            rep.sample("host", || json!({"rust": rust, "kind": kind, "schema": s, "model": d}));
        }
    }
}
