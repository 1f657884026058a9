//! C21: identities and names of instantiations of generic types.
use crate::corpus::Cfg;
use crate::model::C;
use crate::{guarded, walk, Report, Rng};
use schemars::JsonSchema;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Ty {
    text: &'static str,
    norm: &'static str,
    name: &'static str,
    inline: bool,
    top: crate::twins::Top,
    id: fn() -> String,
}
impl Ty {
    pub fn new<T: JsonSchema + ?Sized>(text: &'static str, norm: &'static str, name: &'static str, inline: bool) -> Ty {
        Ty { text, norm, name, inline, top: crate::twins::Top::new::<T>(0, text), id: || T::schema_id().into_owned() }
    }
}

pub fn main(tys: Vec<Ty>) {
    crate::report::hook();
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let prog = std::env::args().next().unwrap().rsplit('/').next().unwrap().to_string();
    let mut rep = Report::new(&prop);
    let mut rng = Rng::from_env(&prog);
    identities(&mut rep, &prog, &tys);
    for _ in 0..Report::scale(250, 1500) {
        history(&mut rep, &prog, &tys, &mut rng);
    }
    colliding(&mut rep);
    rep.finish();
}

fn identities(rep: &mut Report, prog: &str, tys: &[Ty]) {
    let ids: Vec<String> = tys.iter().map(|t| (t.id)()).collect();
    for (i, t) in tys.iter().enumerate() {
        let name = (t.top.name)();
        rep.case(&format!("{prog} name {}", t.text), t.text.contains('<'));
        rep.count("names");
        if name != t.name {
            rep.violation(&format!("name:{prog}:{}", t.text), &format!("{} is named {name:?}, expected {:?}", t.text, t.name), json!(null));
        }
        if (t.top.inline)() != t.inline {
            rep.violation(&format!("inline:{prog}:{}", t.text), &format!("{}: inline_schema() is {}", t.text, !t.inline), json!(null));
        }
        for (j, u) in tys.iter().enumerate().take(i) {
            let same = t.norm == u.norm;
            rep.count(if same { "equal-pairs" } else { "different-pairs" });
            if same {
                rep.case(&format!("{prog} {} == {}", t.text, u.text), t.text != u.text);
            } else {
                rep.case(&format!("{prog} {} != {}", t.text, u.text), name == (u.top.name)());
            }
            if same != (ids[i] == ids[j]) {
                rep.violation(
                    &format!("{}:{prog}:{}", if same { "id-split" } else { "id-shared" }, t.text),
                    &format!("{} and {} are {} types but their schema ids are {:?} and {:?}", t.text, u.text, if same { "equal" } else { "different" }, ids[i], ids[j]),
                    json!(null),
                );
            }
        }
        rep.sample("identity", || json!({"type": t.text, "id": ids[i], "name": name}));
    }
}

/// One generator asked for several types: equal types share one definition, different ones do not.
fn history(rep: &mut Report, prog: &str, tys: &[Ty], rng: &mut Rng) {
    let cfg = *rng.pick(&Cfg::all());
    if cfg.inline {
        return;
    }
    let c = if rng.chance(1, 2) { C::Ser } else { C::De };
    let n = rng.range(2, 9);
    let at = rng.below(tys.len());
    // neighbours are variations of each other
    let picks: Vec<&Ty> = (0..n).map(|_| &tys[if rng.chance(1, 4) { rng.below(tys.len()) } else { (at + rng.below(6)) % tys.len() }]).collect();
    let what = format!("{prog} [{}] under {}:{c:?}", picks.iter().map(|t| t.text).collect::<Vec<_>>().join(", "), cfg.name());
    rep.breadcrumb(&what);
    let run = guarded(|| {
        let mut g = cfg.settings(c).into_generator();
        let subs: Vec<Value> = picks.iter().map(|t| (t.top.sub)(&mut g).to_value()).collect();
        let again: Vec<Value> = picks.iter().map(|t| (t.top.sub)(&mut g).to_value()).collect();
        let ptr = crate::world::ptr_of(g.settings());
        let defs = g.take_definitions(false);
        (subs, again, defs, ptr)
    });
    let Ok((subs, again, defs, ptr)) = run else {
        rep.violation(&format!("ids-panic:{prog}:{}", picks[0].text), &format!("{what}: panicked"), json!(null));
        return;
    };
    let distinct: std::collections::BTreeSet<_> = picks.iter().map(|t| t.norm).collect();
    rep.case(&what, distinct.len() > 1);
    rep.count("histories");
    rep.add("definitions", defs.len() as u64);
    if subs != again {
        rep.violation(&format!("ids-again:{prog}:{}", picks[0].text), &format!("{what}: asking again gives other schemas"), json!([subs, again]));
    }
    let mut by_ref: BTreeMap<String, &Ty> = BTreeMap::new();
    let mut by_norm: BTreeMap<&str, String> = BTreeMap::new();
    for (t, s) in picks.iter().zip(&subs) {
        let r = s.get("$ref").and_then(Value::as_str);
        if t.inline == r.is_some() {
            rep.violation(&format!("ids-ref:{prog}:{}", t.text), &format!("{what}: {} gave {s}", t.text), json!(null));
            continue;
        }
        if let Some(r) = r {
            rep.count("references");
            if let Some(u) = by_ref.insert(r.to_string(), t) {
                if u.norm != t.norm {
                    rep.violation(&format!("conflated:{prog}:{}", t.text), &format!("{what}: {} and {} share {r}", t.text, u.text), json!(defs));
                }
            }
            if let Some(q) = by_norm.insert(t.norm, r.to_string()) {
                if q != r {
                    rep.violation(&format!("duplicated:{prog}:{}", t.text), &format!("{what}: {} has two definitions {r} and {q}", t.text), json!(defs));
                }
            }
            let key = walk::ref_tokens(r).and_then(|t| t.last().cloned()).unwrap_or_default();
            let suffix = key.strip_prefix(t.name).map(|s| s.is_empty() || s.parse::<u32>().is_ok());
            if suffix != Some(true) {
                rep.violation(&format!("definition-name:{prog}:{}", t.text), &format!("{what}: the definition of {} is called {key:?}, its name is {:?}", t.text, t.name), json!(null));
            }
        }
        // the schema reached is the type's own
        let mut doc = match r {
            Some(r) => {
                let mounted = attach(json!({}), &defs, &ptr);
                match walk::resolve(&mounted, r) {
                    Some(x) => x.clone(),
                    None => {
                        rep.violation(&format!("ids-dangling:{prog}:{}", t.text), &format!("{what}: {r} dangles"), json!(defs));
                        continue;
                    }
                }
            }
            None => s.clone(),
        };
        if let Some(o) = doc.as_object_mut() {
            o.remove("title");
        }
        let doc = attach(doc, &defs, &ptr);
        let fresh = guarded(|| {
            let mut s = cfg.settings(c);
            s.transforms.clear();
            s.meta_schema = None;
            (t.top.into_root)(s.into_generator()).to_value()
        });
        let Ok(mut fresh) = fresh else { continue };
        if let Some(o) = fresh.as_object_mut() {
            o.remove("title");
        }
        if doc.is_object() && fresh.is_object() {
            if let Some(d) = crate::corpus::doc_difference(&doc, &fresh, &ptr) {
                rep.violation(&format!("other-schema:{prog}:{}", t.text), &format!("{what}: the schema reached for {} differs from its own: {d}", t.text), json!({"reached": doc, "own": fresh}));
            }
        }
    }
}

fn attach(mut doc: Value, defs: &serde_json::Map<String, Value>, ptr: &str) -> Value {
    if doc.is_object() {
        let mut slot = &mut doc;
        for t in ptr.split('/').skip(1) {
            slot = slot.as_object_mut().unwrap().entry(t.replace("~1", "/").replace("~0", "~")).or_insert(json!({}));
        }
        *slot = Value::Object(defs.clone());
    }
    doc
}

/// Pairs of types that share an identity because a `rename` (or a function body) gives them the same
/// module path and name; each is listed in known_findings.txt.
fn colliding(rep: &mut Report) {
    #[derive(JsonSchema)]
    #[serde(rename = "Same")]
    struct SameA {
        #[allow(dead_code)]
        a: u8,
    }
    #[derive(JsonSchema)]
    #[serde(rename = "Same")]
    struct SameB {
        #[allow(dead_code)]
        b: String,
    }
    #[derive(JsonSchema)]
    #[serde(rename = "inner::Deep")]
    struct Renamed {
        #[allow(dead_code)]
        a: u8,
    }
    fn f() -> (String, Value) {
        #[derive(JsonSchema)]
        struct Local {
            #[allow(dead_code)]
            a: u8,
        }
        (Local::schema_id().into(), schemars::schema_for!(Local).to_value())
    }
    fn g() -> (String, Value) {
        #[derive(JsonSchema)]
        struct Local {
            #[allow(dead_code)]
            b: String,
        }
        (Local::schema_id().into(), schemars::schema_for!(Local).to_value())
    }
    fn of<T: JsonSchema>() -> (String, Value) {
        (T::schema_id().into(), schemars::schema_for!(T).to_value())
    }
    for (sig, what, a, b) in [
        ("same-module-same-rename", "two types of one module renamed alike", of::<SameA>(), of::<SameB>()),
        ("rename-spells-another-path", "a type renamed to the path of a type in a submodule", of::<Renamed>(), of::<inner::Deep>()),
        ("function-local-types-of-one-name", "same-named types local to two functions of one module", f(), g()),
    ] {
        rep.case(sig, true);
        rep.count("collision-probes");
        if a.0 == b.0 && a.1 != b.1 {
            rep.violation(sig, &format!("{what} share the schema id {:?} although their schemas differ", a.0), json!([a.1, b.1]));
        }
    }
}
pub mod inner {
    #[derive(schemars::JsonSchema)]
    pub struct Deep {
        pub b: String,
    }
}
