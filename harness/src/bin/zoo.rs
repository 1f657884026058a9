//! C08: hand-written recursive types in shapes the random programs reach seldom or never. One process per
//! type (the first argument), so that endless recursion of one is a crash of that one.
//! Judges: serde (where the type has a deserializer) and listed documents.
#![allow(dead_code, unconditional_recursion)]
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{JsonSchema, Schema};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, LinkedList, VecDeque};
use std::rc::Rc;
use vh::eval::Eval;
use vh::val::{Dia, DIALECTS};
use vh::*;


// a required Option holding its own type
#[derive(Serialize, Deserialize, JsonSchema)] enum Req { Leaf, Node { #[schemars(required)] n: Option<Box<Req>> } }
#[derive(Serialize, Deserialize, JsonSchema)] struct ReqMut { #[schemars(required)] e: Option<ReqMutE>, v: u8 }
#[derive(Serialize, Deserialize, JsonSchema)] enum ReqMutE { End, Go(Box<ReqMut>), Both { #[schemars(required)] l: Option<Box<ReqMut>>, #[schemars(required)] r: Option<Box<ReqMutE>> } }
#[derive(Serialize, Deserialize, JsonSchema)] enum ReqVar { Leaf(u8), Node(#[schemars(required)] Option<Box<ReqVar>>) }
#[derive(Serialize, Deserialize, JsonSchema)] enum ReqTup { Leaf(bool), Node(u8, #[schemars(required)] Option<Box<ReqTup>>) }
// recursion from inside a flattened part back to the host, through an ordinary member
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatA { x: u8, #[serde(flatten)] b: Option<Box<FlatB>> }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatB { y: u8, back: Vec<FlatA>, #[serde(flatten)] c: FlatC }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatC { z: Option<Box<FlatA>>, zz: Option<Box<FlatC>> }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatE { x: u8, #[serde(flatten)] k: FlatK }
#[derive(Serialize, Deserialize, JsonSchema)] enum FlatK { Stop(bool), Again(Box<FlatE>), Self_ { k: Box<FlatK> } }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatMap { x: u8, #[serde(flatten)] m: BTreeMap<String, FlatMap> }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatOptMap { x: Option<u8>, #[serde(flatten)] m: Option<HashMap<String, Vec<FlatOptMap>>> }
#[derive(Serialize, Deserialize, JsonSchema)] enum FlatV { A { x: u8, #[serde(flatten)] rest: FlatVA }, B }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatVA { inner: Box<FlatV>, o: Option<Box<FlatVA>> }
// tagged enums
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t")] enum Int { Leaf, Wrap(IntS), More { a: u8, n: Option<Box<Int>> } }
#[derive(Serialize, Deserialize, JsonSchema)] struct IntS { list: Vec<Int>, one: Option<Box<IntS>> }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t", content = "c")] enum Adj { Leaf, Wrap(Box<Adj>), Tup(String, Box<Adj>), Opt(Option<Box<Adj>>), S { s: Vec<Adj> } }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(untagged)] enum Unt { N, B(bool), S(String), A(Vec<Unt>), O(BTreeMap<String, Unt>) }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(untagged)] enum UntB { Node { left: Box<UntB>, right: Box<UntB> }, Leaf(i8) }
#[derive(Serialize, Deserialize, JsonSchema)] #[schemars(_unstable_ref_variants)] enum RefV { Leaf, Wrap(Box<RefV>), More { a: u8, n: Option<Box<RefV>> } }
#[derive(Serialize, Deserialize, JsonSchema)] enum SkipV { Leaf, #[serde(skip)] Gone(Vec<SkipV>), #[serde(skip_serializing)] In(Box<SkipV>), #[serde(skip_deserializing)] Out { o: Box<SkipV> } }
// wrappers
#[derive(Serialize, Deserialize, JsonSchema)] struct NewVec(Vec<NewVec>);
#[derive(Serialize, Deserialize, JsonSchema)] struct TraHost { a: Tra, b: u8 }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(transparent)] struct Tra(Option<Box<TraHost>>);
#[derive(Serialize, Deserialize, JsonSchema)] struct Tup(u8, Option<Box<Tup>>, (bool, Vec<Tup>));
#[derive(Serialize, Deserialize, JsonSchema)] struct Arr { b: [Option<Box<Arr>>; 2], c: (u8, Option<Box<Arr>>) }
#[derive(Serialize, Deserialize, JsonSchema)] struct Lib { a: Option<Rc<Lib>>, b: VecDeque<Lib>, c: LinkedList<Lib>, d: BTreeMap<u8, Lib>, e: Option<RefCell<Box<Lib>>> }
#[derive(Serialize, Deserialize, JsonSchema)] struct Res { r: Result<Box<Res>, u8> }
#[derive(Serialize, Deserialize, JsonSchema)] struct Dir { #[serde(default)] a: Option<Box<Dir>>, #[serde(default, skip_serializing_if = "Vec::is_empty")] b: Vec<Dir> }
#[derive(Serialize, Deserialize, JsonSchema)] struct Ser { #[serde(skip_serializing)] a: Option<Box<Ser>>, #[serde(skip_deserializing)] b: Vec<Ser>, v: u8 }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(deny_unknown_fields)] struct Deny { n: Option<Box<Deny>>, k: DenyE }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(deny_unknown_fields)] enum DenyE { L, R { d: Box<Deny> }, Q(Box<DenyE>) }
#[derive(Serialize, Deserialize, JsonSchema)] struct Inl { i: InlIn, v: u8 }
#[derive(Serialize, Deserialize, JsonSchema)] #[schemars(inline)] struct InlIn { back: Option<Box<Inl>>, many: Vec<Inl> }
#[derive(Serialize, Deserialize, JsonSchema)] #[schemars(rename = "a/b c~%")] struct Odd { n: Option<Box<Odd>>, m: BTreeMap<String, Odd> }
#[derive(Serialize, Deserialize, JsonSchema)] struct Wth { #[schemars(with = "Option<Box<Wth>>")] #[serde(default)] a: Option<Box<Wth>>, #[schemars(with = "Vec<Wth>")] b: VecDeque<Wth> }
// generics
#[derive(Serialize, Deserialize, JsonSchema)] struct Gen<T> { t: Option<Box<Gen<T>>>, v: T, w: Vec<Gen<u8>> }
#[derive(Serialize, Deserialize, JsonSchema)] struct PairG<A, B> { a: A, b: B, swap: Option<Box<PairG<B, A>>> }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(bound = "T: Serialize + DeserializeOwned")] #[schemars(bound = "T: JsonSchema")] enum Ast<T> { Lit(T), Bin { l: Box<Ast<T>>, r: Box<Ast<T>> }, Call(String, Vec<Ast<T>>) }
// three and four types in a ring
#[derive(Serialize, Deserialize, JsonSchema)] struct R1 { n: Option<Box<R2>> }
#[derive(Serialize, Deserialize, JsonSchema)] struct R2 { n: Vec<R3>, me: Option<Box<R2>> }
#[derive(Serialize, Deserialize, JsonSchema)] struct R3 { n: BTreeMap<String, R4>, one: Option<Box<R1>> }
#[derive(Serialize, Deserialize, JsonSchema)] enum R4 { Back(R1), Three(Box<R3>), End }
// recursion through a type that is always inlined: its own schema has no place to refer to
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(transparent)] struct TraVec(Vec<TraVec>);
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(transparent)] struct TraRes { r: Result<Box<TraRes>, u8> }
#[derive(Serialize, Deserialize, JsonSchema)] #[schemars(with = "Vec<WithVec>")] #[serde(transparent)] struct WithVec(Vec<WithVec>);

// ---- shapes that are not recursive (C01 C02 C03 C05): seldom met combinations
#[derive(Serialize, Deserialize, JsonSchema)] enum Ext { A { x: u8 }, B(u8), C(u8, bool) }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(untagged)] enum UntO { P { p: u8 }, Q { q: bool, r: Option<u8> } }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(untagged)] enum UntM { P { p: u8 }, M(BTreeMap<String, bool>) }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t")] enum IntUntMap { Unt(UntM), U }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "u")] enum IntB { A { x: u8 }, B, C(UnitS) }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "u", content = "v")] enum AdjB { A { x: u8 }, B, C(u8), D(Option<u8>) }
#[derive(Serialize, Deserialize, JsonSchema)] struct UnitS;
#[derive(Serialize, Deserialize, JsonSchema)] struct EmptyS {}
#[derive(Serialize, Deserialize, JsonSchema)] struct EmptyT();
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatMid { z: u8, #[serde(flatten)] e: Ext }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t")]
enum IntNew { Ext(Ext), BoxExt(Box<Ext>), Unt(UntO), Int(IntB), Adj(AdjB), Map(BTreeMap<String, u8>), Unit(UnitS), Empty(EmptyS), Mid(FlatMid), Nothing(()) }
#[derive(Serialize, Deserialize, JsonSchema)] struct IntNewHost { h: bool, #[serde(flatten)] i: IntNew }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t", content = "c")] enum AdjOpt { A(Option<u8>), B(Option<Ext>), C { x: Option<u8> }, D(()), E(Option<()>), F(UnitS), G(Vec<u8>), H(Option<Option<bool>>) }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t", content = "c", deny_unknown_fields)] enum AdjDeny { U, A(Option<u8>), B { x: u8 }, T(u8, Option<bool>) }
#[derive(Serialize, Deserialize, JsonSchema)] enum ExtOpt { A(Option<u8>), B(Option<Ext>), U, D(()), F(UnitS), E(), S {}, One(u8,), T(Option<u8>, Option<bool>) }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(untagged)] enum UntOpt { A { a: Option<u8>, k: u8 }, S(String), T(u8, Option<bool>), N }
#[derive(Serialize, Deserialize, JsonSchema)] struct Tuples(u8, Option<u8>, (bool,), [u8; 1], EmptyT, UnitS, ());
#[derive(Serialize, Deserialize, JsonSchema)] struct One(u8,);
#[derive(Serialize, Deserialize, JsonSchema)] struct TupSkip(u8, #[serde(skip)] bool, String, #[serde(skip)] bool);
#[derive(Serialize, Deserialize, JsonSchema)] struct TwoLeft(u8, #[serde(skip)] bool);
#[derive(Serialize, Deserialize, JsonSchema)] struct Phantoms<T> { p: std::marker::PhantomData<T>, o: Option<std::marker::PhantomData<T>>, x: u8 }
#[derive(Serialize, Deserialize, JsonSchema)] enum DeadA { #[serde(skip)] A, #[serde(skip)] B(u8) }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t")] enum DeadI { #[serde(skip)] A, #[serde(skip)] B { x: u8 } }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t", content = "c")] enum DeadJ { #[serde(skip)] A, #[serde(skip)] B(u8) }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(untagged)] enum DeadU { #[serde(skip)] A, #[serde(skip)] B { x: u8 } }
#[derive(Serialize, Deserialize, JsonSchema)] enum DeadW { #[serde(skip_serializing)] A, #[serde(skip_serializing)] B { x: u8 } }
#[derive(Serialize, Deserialize, JsonSchema)] enum DeadR { #[serde(skip_deserializing)] A, #[serde(skip_deserializing)] B { x: u8 } }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(untagged)] enum DeadUW { #[serde(skip_serializing)] A { a: u8 }, #[serde(skip_serializing)] B(bool) }
#[derive(Serialize, Deserialize, JsonSchema)] enum Never {}
#[derive(Serialize, Deserialize, JsonSchema)] struct Dead { a: Vec<DeadA>, i: Option<DeadI>, j: BTreeMap<String, DeadJ>, u: Vec<DeadU>, w: Vec<DeadW>, r: Option<DeadR>, n: Option<Never>, uw: Vec<DeadUW> }
#[derive(Serialize, Deserialize, JsonSchema)] enum Pa { P1(u8), P2 { p: bool } }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "kind")] enum Pb { P3 { three: u8 }, P4 }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatTwo { #[serde(flatten)] a: Pa, #[serde(flatten)] b: Pb, n: u8 }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatOptTwo { #[serde(flatten)] o: Option<FlatTwo>, m: bool }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatOptPure { #[serde(flatten)] o: Option<FlatPure>, m: bool }
#[derive(Serialize, Deserialize, JsonSchema)] struct FlatPure { #[serde(flatten)] a: Pa, #[serde(flatten)] b: Pb }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(deny_unknown_fields)] struct DenyIn { a: u8, b: Option<u8> }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(tag = "t")] enum DenyInt { A(DenyTag), #[serde(rename = "b/~")] B { x: u8 } }
#[derive(Serialize, Deserialize, JsonSchema)] struct DenyTag { d: DenyIn, e: Vec<DenyIn> }
#[derive(Serialize, Deserialize, JsonSchema)] enum DenyVar { A(DenyIn), B { #[serde(rename = "$ref")] r: u8, d: Option<DenyIn> } }
#[derive(Serialize, Deserialize, JsonSchema)] enum Nul { N, #[serde(rename = "null")] M }
#[derive(Serialize, Deserialize, JsonSchema)] #[serde(untagged)] enum NulU { N, B(bool) }
#[derive(Serialize, Deserialize, JsonSchema)] struct Opts { a: Option<Nul>, b: Option<Option<Nul>>, c: Option<NulU>, d: Option<Option<NulU>>, e: Option<()>, f: Option<UnitS>, g: Vec<Option<Nul>>, h: Option<Ext>, i: Option<Box<DenyIn>> }

/// The type in other places: beside itself, in containers, as an argument.
#[derive(Serialize, Deserialize, JsonSchema)]
struct Host<T> { a: T, b: Option<Box<T>>, c: Vec<T>, d: BTreeMap<String, T> }

fn subs<'a>(v: &'a Value, out: &mut Vec<&'a Value>) {
    out.push(v);
    match v {
        Value::Array(a) => a.iter().for_each(|x| subs(x, out)),
        Value::Object(o) => o.values().for_each(|x| subs(x, out)),
        _ => {}
    }
}

/// Replaces values by others of the same kind (containers are never exchanged for another kind, where serde is
/// more lenient than its documented form), or drops members and elements.
fn mutate(v: &mut Value, pool: &[Value], rng: &mut Rng, p: usize) {
    let kind = |v: &Value| match v {
        Value::Array(_) => 1,
        Value::Object(_) => 2,
        _ => 0,
    };
    if rng.chance(p, 100) {
        let same: Vec<&Value> = pool.iter().filter(|x| kind(x) == kind(v) || kind(v) == 0 && x.is_null() || v.is_null() && kind(x) == 2).collect();
        if !same.is_empty() {
            *v = same[rng.below(same.len())].clone();
            return;
        }
    }
    match v {
        Value::Array(a) => {
            if !a.is_empty() && rng.chance(p, 100) {
                let i = rng.below(a.len());
                if rng.chance(1, 2) {
                    a.remove(i);
                } else {
                    let x = a[i].clone();
                    a.push(x);
                }
            }
            a.iter_mut().for_each(|x| mutate(x, pool, rng, p));
        }
        Value::Object(o) => {
            if !o.is_empty() && rng.chance(p, 100) {
                let k = o.keys().nth(rng.below(o.len())).unwrap().clone();
                o.remove(&k);
            }
            o.values_mut().for_each(|x| mutate(x, pool, rng, p));
        }
        _ => {}
    }
}

fn numbered_tag(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(numbered_tag),
        Value::Object(o) => o.iter().any(|(k, x)| matches!(k.as_str(), "t" | "u" | "kind") && x.is_number() || numbered_tag(x)),
        _ => false,
    }
}

fn settings() -> Vec<(String, SchemaSettings, Dia)> {
    let mut out = Vec::new();
    for d in DIALECTS {
        for inline in [false, true] {
            for ser in [false, true] {
                let mut s = d.settings();
                s.inline_subschemas = inline;
                if ser {
                    s = s.for_serialize();
                }
                out.push((format!("{}{}{}", d.name(), if inline { "-inline" } else { "" }, if ser { "-ser" } else { "-de" }), s, d));
            }
        }
    }
    out
}

struct T {
    name: &'static str,
    root: fn(SchemaGenerator) -> Schema,
    /// reads and writes again (None: not read; Some(None): not written)
    round: fn(&Value) -> Option<Option<Value>>,
    good: Vec<Value>,
    bad: Vec<Value>,
    pool: Vec<Value>,
}

fn run(rep: &mut Report, rng: &mut Rng, t: &T) {
    let mut schemas = Vec::new();
    for (name, s, d) in settings() {
        rep.breadcrumb(&format!("generation:{name}"));
        let v = (t.root)(s.into_generator()).to_value();
        let (n, broken) = {
            let (mut n, mut broken) = (0u64, Vec::new());
            walk::walk(&v, &mut |at, x| {
                if let Some(r) = x.get("$ref").and_then(|r| r.as_str()) {
                    n += 1;
                    // a chain of bare references must end in something else
                    let mut cur = x;
                    let mut hops = 0;
                    while let Some(r2) = cur.get("$ref").and_then(|r| r.as_str()) {
                        match walk::resolve(&v, r2) {
                            Some(y) if hops < 50 => cur = y,
                            _ => {
                                broken.push(format!("{r} at {at}"));
                                break;
                            }
                        }
                        hops += 1;
                    }
                }
            });
            (n, broken)
        };
        rep.add("references", n);
        rep.count("documents-generated");
        rep.case(&format!("{}/{name}", t.name), n > 0);
        for b in broken {
            rep.violation(&format!("reference-goes-nowhere:{}", t.name), &format!("reference {b} ends nowhere in the {name} schema of {}", t.name), json!({"schema": v}));
        }
        schemas.push((name.clone(), Eval::owned(&v, d), v, name.ends_with("-ser")));
    }
    rep.breadcrumb("judging");
    let prop = rep.prop.clone();
    if prop == "C05" {
        for (name, _, v, _) in &schemas {
            let d = DIALECTS.into_iter().find(|d| name.starts_with(d.name())).unwrap();
            let mut ps = dialect::problems(v, d);
            ps.extend(val::meta_ok(v, d).err());
            for p in ps {
                rep.violation(&format!("shape:{}:{name}", t.name), &format!("the {name} schema of {}: {p}", t.name), json!({"schema": v}));
            }
        }
        return;
    }
    let judge = |rep: &mut Report, doc: &Value, ser: bool, want: bool, by: &str| {
        if match prop.as_str() {
            "C01" => !ser || !want,
            "C02" => ser || !want,
            "C03" => want,
            _ => false,
        } {
            return;
        }
        for (name, e, v, s) in &schemas {
            if *s != ser {
                continue;
            }
            let got = e.is_valid(doc);
            rep.case(&format!("{}/{name}/{}", t.name, canon(doc)), !doc.is_null());
            rep.count(if want { "documents-of-the-type" } else { "documents-not-of-the-type" });
            match got {
                Some(g) if g == want => {}
                Some(g) => rep.violation(
                    &format!("zoo:{}", t.name),
                    &format!("{name} schema of {} says {g} for {doc}, {by} says {want}", t.name),
                    json!({"doc": doc, "schema": v}),
                ),
                None => rep.violation(
                    &format!("zoo-no-verdict:{}", t.name),
                    &format!("{name} schema of {} gives no verdict on {doc} (a reference without progress)", t.name),
                    json!({"doc": doc, "schema": v}),
                ),
            }
        }
    };
    for g in &t.good {
        let w = (t.round)(g).unwrap_or_else(|| panic!("harness: {} does not read {g}", t.name));
        judge(rep, g, false, true, "serde");
        if let Some(w) = w {
            judge(rep, &w, true, true, "serde");
        }
    }
    for b in &t.bad {
        judge(rep, b, false, false, "the list");
    }
    let mut pool: Vec<Value> = Vec::new();
    for g in &t.pool {
        let mut s = Vec::new();
        subs(g, &mut s);
        pool.extend(s.into_iter().cloned());
    }
    pool.extend([json!(null), json!(true), json!(7), json!("x"), json!([]), json!({})]);
    for i in 0..Report::scale(150, 3000) {
        let mut doc = t.good[rng.below(t.good.len())].clone();
        for _ in 0..1 + i % 3 {
            mutate(&mut doc, &pool, rng, 12);
        }
        if doc.to_string().len() > 4000 {
            continue;
        }
        match (t.round)(&doc) {
            // `required` is schemars' own: serde alone does not insist on such members
            Some(_) if t.name.contains("Req") => {}
            Some(w) => {
                // a flattened Option swallows what it cannot read: such documents are only written again
                // ... and serde reads a tag given as a number
                // ... and null content for a unit variant
                if !numbered_tag(&doc) && !t.name.contains("AdjDeny") && !t.name.contains("FlatA") && !t.name.contains("FlatOpt") {
                    judge(rep, &doc, false, true, "serde");
                }
                if let Some(w) = w.filter(|w| w.to_string().len() < 4000) {
                    judge(rep, &w, true, true, "serde");
                }
                if pool.len() < 300 && !t.name.starts_with("Host") {
                    pool.push(doc);
                }
            }
            // serde refuses content for an adjacently tagged unit variant, the schema need not
            // ... and unknown members next to an internally tagged unit or enum
            None if t.name.contains("Adj") || t.name.contains("IntNew") => {}
            None => judge(rep, &doc, false, false, "serde"),
        }
    }
    rep.sample("recursive-type", || json!({"type": t.name, "good": t.good, "bad": t.bad, "schema": schemas[0].2}));
}

fn host(good: &[Value]) -> Vec<Value> {
    good.iter()
        .enumerate()
        .map(|(i, g)| json!({"a": g, "b": if i % 2 == 0 { Value::Null } else { g.clone() }, "c": good, "d": {"k": g}}))
        .collect()
}

fn main() {
    report::hook();
    let prop = std::env::var("VH_PROP").unwrap_or("C08".into());
    let which = std::env::args().nth(1).expect("type");
    let mut rep = Report::new(&prop);
    let mut rng = Rng::from_env(&format!("zoo/{which}"));
    let mut names = Vec::new();
    macro_rules! z {
        ($n:ident : $t:ty; $($g:tt),* ; $($b:tt),*) => { z!($n: $t; false; $($g),*; $($b),*) };
        ($n:ident : $t:ty; $skip_host:expr; $($g:tt),* ; $($b:tt),*) => {
            names.push(stringify!($n));
            if which == stringify!($n) {
                fn round<X: Serialize + DeserializeOwned>(v: &Value) -> Option<Option<Value>> {
                    serde_json::from_str::<X>(&v.to_string()).ok().map(|x| serde_json::to_value(x).ok())
                }
                let good = vec![$(json!($g)),*];
                let bad: Vec<Value> = vec![$(json!($b)),*];
                let pool: Vec<Value> = good.iter().chain(&bad).cloned().collect();
                let t = T { pool: pool.clone(), name: stringify!($n), root: |g| g.into_root_schema_for::<$t>(), round: round::<$t>, good: good.clone(), bad: bad.clone() };
                run(&mut rep, &mut rng, &t);
                if !$skip_host {
                    let hb = bad.iter().map(|b| json!({"a": b, "b": null, "c": [], "d": {}}))
                        .chain(bad.iter().map(|b| json!({"a": good[0], "b": null, "c": [b], "d": {}}))).collect();
                    let t = T { pool, name: concat!("Host<", stringify!($n), ">"), root: |g| g.into_root_schema_for::<Host<$t>>(), round: round::<Host<$t>>, good: host(&good), bad: hb };
                    run(&mut rep, &mut rng, &t);
                }
            }
        };
    }
    z!(Tup: Tup; [1, null, [true, []]], [1, [2, null, [true, []]], [false, [[3, null, [true, []]]]]]; [1, null, [true]], [1, null, [true, [1]]], [1, [2], [true, []]]);
    z!(Arr: Arr; {"b": [null, null], "c": [1, null]}, {"b": [null, {"b": [null, null], "c": [1, null]}], "c": [1, {"b": [null, null], "c": [2, null]}]}; {"b": [null], "c": [1, null]}, {"b": [null, {}], "c": [1, null]});
    z!(FlatA: FlatA; {"x": 1}, {"x": 1, "y": 2, "back": [{"x": 2}], "z": null, "zz": null}, {"x": 1, "y": 2, "back": [], "z": {"x": 1, "y": 3, "back": []}, "zz": {"z": null}}; {}, {"x": "a"});
    z!(FlatE: FlatE; {"x": 1, "Stop": true}, {"x": 1, "Again": {"x": 2, "Self_": {"k": {"Stop": false}}}}; {"x": 1}, {"x": 1, "Again": {"x": 2}}, {"x": 1, "Self_": {"k": {"Stop": 1}}});
    z!(FlatMap: FlatMap; {"x": 1}, {"x": 1, "k": {"x": 2, "l": {"x": 3}}}; {"x": 1, "k": {}}, {"x": 1, "k": 1}, {"x": 1, "k": {"x": 1, "l": {"x": "z"}}});
    z!(FlatV: FlatV; "B", {"A": {"x": 1, "inner": "B", "o": null}}, {"A": {"x": 1, "inner": {"A": {"x": 2, "inner": "B"}}, "o": {"inner": "B", "o": {"inner": {"A": {"x": 1, "inner": "B"}}}}}}; {"A": {"x": 1}}, {"A": {"x": 1, "inner": {"A": {}}}});
    z!(Int: Int; {"t": "Leaf"}, {"t": "More", "a": 1, "n": {"t": "Leaf"}}, {"t": "Wrap", "list": [{"t": "Leaf"}, {"t": "Wrap", "list": []}], "one": {"list": [{"t": "More", "a": 1}], "one": null}}; {"t": "More"}, {"t": "Wrap"}, {"t": "Wrap", "list": [{}]}, {"a": 1}, {"t": "Nope"});
    z!(Adj: Adj; {"t": "Leaf"}, {"t": "Wrap", "c": {"t": "Tup", "c": ["s", {"t": "Leaf"}]}}, {"t": "Opt", "c": null}, {"t": "Opt", "c": {"t": "S", "c": {"s": [{"t": "Leaf"}, {"t": "Opt", "c": null}]}}}; {"t": "Wrap"}, {"t": "Wrap", "c": {}}, {"t": "Tup", "c": ["s"]}, {"t": "S", "c": {"s": [{}]}});
    z!(Unt: Unt; null, true, "s", [null, [true, {"k": ["s"]}]], {"a": {"b": [null]}}; 1, [1], {"a": {"b": [1.5]}});
    z!(UntB: UntB; 1, {"left": 1, "right": {"left": {"left": 1, "right": 2}, "right": 3}}; {"left": 1}, {"left": 1, "right": {"left": 1}}, 300, {"left": 1, "right": "x"});
    z!(RefV: RefV; "Leaf", {"Wrap": {"Wrap": "Leaf"}}, {"More": {"a": 1, "n": {"More": {"a": 2, "n": null}}}}; {"More": {"n": null}}, {"Wrap": {"Wrap": 1}}, {"Wrap": "Nope"});
    z!(NewVec: NewVec; [], [[], [[[]]]]; [1], [[], [[{}]]], {});
    z!(TraHost: TraHost; {"a": null, "b": 1}, {"a": {"a": {"a": null, "b": 2}, "b": 3}, "b": 1}; {"a": {"a": null}, "b": 1}, {"a": {"b": "x"}, "b": 1});
    z!(Tra: Tra; null, {"a": null, "b": 1}, {"a": {"a": null, "b": 2}, "b": 3}; 1, {"a": 1, "b": 2}, {"a": null});
    z!(Lib: Lib; {"a": null, "b": [], "c": [], "d": {}, "e": null}, {"a": {"a": null, "b": [], "c": [], "d": {}, "e": null}, "b": [], "c": [{"b": [], "c": [], "d": {}}], "d": {"1": {"b": [], "c": [], "d": {}}}, "e": {"b": [], "c": [], "d": {}}}; {"b": [{}], "c": [], "d": {}}, {"b": [], "c": [], "d": {"1": {"b": []}}});
    z!(Res: Res; {"r": {"Err": 1}}, {"r": {"Ok": {"r": {"Ok": {"r": {"Err": 2}}}}}}; {"r": {"Ok": {}}}, {"r": {"Ok": {"r": {"Err": "x"}}}}, {"r": 1});
    z!(Dir: Dir; true; {}, {"a": {"b": [{}, {"a": null}]}}; {"a": 1}, {"b": [{"a": {"b": 1}}]}, {"b": null});
    z!(Deny: Deny; {"n": null, "k": "L"}, {"n": {"k": {"Q": {"Q": "L"}}}, "k": {"R": {"d": {"k": "L"}}}}; {"k": "L", "zz": 1}, {"k": {"R": {"d": {"k": "L"}, "zz": 1}}}, {"n": {"k": "L", "zz": 1}, "k": "L"}, {"k": {"Q": "M"}});
    z!(Inl: Inl; {"i": {"back": null, "many": []}, "v": 1}, {"i": {"back": {"i": {"many": []}, "v": 1}, "many": [{"i": {"many": []}, "v": 2}]}, "v": 1}; {"i": {"many": [{}]}, "v": 1}, {"i": {"back": {"v": 1}, "many": []}, "v": 1});
    z!(InlIn: InlIn; {"back": null, "many": []}, {"back": {"i": {"many": []}, "v": 1}, "many": [{"i": {"many": []}, "v": 2}]}; {"many": [{}]}, {"many": [], "back": {"v": 1}});
    z!(Odd: Odd; {"n": null, "m": {}}, {"n": {"m": {"k": {"m": {}}}}, "m": {"a/b c~%": {"m": {}}}}; {"m": {"k": {}}}, {"n": {}, "m": {}});
    z!(GenU16: Gen<u16>; {"t": null, "v": 300, "w": []}, {"t": {"t": null, "v": 4, "w": []}, "v": 1, "w": [{"v": 255, "w": [], "t": {"v": 7, "w": []}}]}; {"v": 70000, "w": []}, {"v": 1, "w": [{"v": 256, "w": []}]}, {"t": {"v": -1, "w": []}, "v": 1, "w": []});
    z!(GenU8: Gen<u8>; {"t": null, "v": 3, "w": []}, {"t": {"v": 4, "w": []}, "v": 1, "w": [{"v": 255, "w": [], "t": {"v": 7, "w": []}}]}; {"v": 300, "w": []}, {"v": 1, "w": [{"v": 256, "w": []}]});
    z!(Swap: PairG<u8, bool>; {"a": 1, "b": true, "swap": null}, {"a": 1, "b": true, "swap": {"a": false, "b": 2, "swap": {"a": 3, "b": true}}}; {"a": true, "b": 1}, {"a": 1, "b": true, "swap": {"a": 1, "b": true}});
    z!(AstStr: Ast<String>; {"Lit": "x"}, {"Bin": {"l": {"Lit": "a"}, "r": {"Call": ["f", [{"Lit": "b"}]]}}}, {"Call": ["g", []]}; {"Lit": 1}, {"Bin": {"l": {"Lit": "a"}}}, {"Call": ["f", [{"Lit": 1}]]});
    z!(AstGen: Ast<Gen<Ast<u8>>>; {"Lit": {"v": {"Lit": 1}, "w": []}}, {"Bin": {"l": {"Lit": {"v": {"Call": ["f", [{"Lit": 2}]]}, "w": [{"v": 1, "w": []}]}}, "r": {"Call": ["x", []]}}}; {"Lit": {"Lit": 1}}, {"Lit": {"v": {"Lit": "x"}, "w": []}}, {"Call": ["f", [{"Lit": 1}]]});
    z!(Ring1: R1; {"n": null}, {"n": {"n": [{"n": {"k": {"Back": {"n": null}}, "e": "End"}, "one": {"n": null}}], "me": {"n": []}}}; {"n": {}}, {"n": {"n": [{"n": {"k": "Nope"}}]}}, {"n": {"n": [{"n": {"k": {"Back": {"n": 1}}}}]}});
    z!(Ring2: R2; {"n": []}, {"n": [{"n": {"k": {"Three": {"n": {}}}}}], "me": {"n": []}}; {}, {"n": [{"n": {"k": {"Three": {}}}}]});
    z!(Ring3: R3; {"n": {}}, {"n": {"k": {"Three": {"n": {}}}}, "one": {"n": {"n": []}}}; {}, {"n": {"k": {"Three": {}}}}, {"n": {}, "one": {"n": {}}});
    z!(Ring4: R4; "End", {"Back": {"n": {"n": [{"n": {"x": "End"}}]}}}, {"Three": {"n": {"q": {"Back": {}}}}}; "Nope", {"Three": {}}, {"Back": {"n": {}}});
    z!(Req: Req; "Leaf", {"Node": {"n": "Leaf"}}, {"Node": {"n": {"Node": {"n": "Leaf"}}}}; {"Node": {"n": 1}}, {"Node": {}}, {"Node": {"n": null}}, {"Node": {"n": {"Node": {"n": null}}}}, {"Node": {"n": {"Node": {"n": "Nope"}}}});
    z!(ReqMut: ReqMut; {"e": "End", "v": 1}, {"e": {"Go": {"e": "End", "v": 2}}, "v": 1}, {"e": {"Both": {"l": {"e": "End", "v": 1}, "r": {"Go": {"e": "End", "v": 3}}}}, "v": 1}; {"e": {"Go": {"e": 1, "v": 1}}, "v": 1}, {"e": "End"}, {"e": {"Both": {"l": 1, "r": "End"}}, "v": 1});
    z!(ReqMutE: ReqMutE; "End", {"Go": {"e": "End", "v": 2}}, {"Both": {"l": {"e": {"Go": {"e": "End", "v": 1}}, "v": 1}, "r": {"Both": {"l": {"e": "End", "v": 1}, "r": "End"}}}}; {"Go": {"e": 1, "v": 1}}, {"Both": {"l": 1, "r": "End"}});
    z!(ReqVar: ReqVar; {"Leaf": 1}, {"Node": {"Node": {"Leaf": 1}}}; {"Node": {"Node": {"Leaf": "x"}}}, {"Node": 1});
    z!(ReqTup: ReqTup; {"Leaf": true}, {"Node": [1, {"Node": [2, {"Leaf": false}]}]}; {"Node": [1, {"Node": [2, 3]}]}, {"Node": [1]});
    z!(FlatOptMap: FlatOptMap; {}, {"x": 1}, {"x": null, "k": [{"x": 1}, {"l": []}]}; {"x": 1, "k": [{"x": "a"}]});
    z!(Ser: Ser; {"a": null, "v": 1}, {"a": {"a": {"v": 3}, "v": 2}, "v": 1}; {"a": {}, "v": 1}, {"v": "x"});
    z!(SkipV: SkipV; "Leaf", {"In": "Leaf"}; {"In": 1}, "Gone");
    z!(Wth: Wth; {"b": []}, {"a": {"b": [{"b": []}]}, "b": []}; {"a": 1, "b": []}, {"b": [{}]});
    z!(TraVec: TraVec; [], [[], [[]]]; [1]);
    z!(TraRes: TraRes; {"Err": 1}, {"Ok": {"Ok": {"Err": 2}}}; {"Ok": 1}, 1);
    z!(WithVec: WithVec; [], [[], [[]]]; [1]);
    let recursive = names.len();
    z!(IntNew: IntNew; {"t": "Ext", "A": {"x": 1}}, {"t": "Ext", "B": 1}, {"t": "Ext", "C": [1, true]}, {"t": "BoxExt", "A": {"x": 1}}, {"t": "Unt", "p": 1}, {"t": "Unt", "q": true}, {"t": "Int", "u": "A", "x": 1}, {"t": "Int", "u": "B"}, {"t": "Int", "u": "C"}, {"t": "Adj", "u": "A", "v": {"x": 1}}, {"t": "Adj", "u": "B"}, {"t": "Adj", "u": "C", "v": 3}, {"t": "Map", "k": 1}, {"t": "Unit"}, {"t": "Empty"}, {"t": "Mid", "z": 1, "B": 2}, {"t": "Nothing"}; {"t": "Ext"}, {"t": "Ext", "A": {}}, {"t": "Int"}, {"t": "Adj", "u": "C"}, {"t": "Mid", "z": 1}, {"t": "Map", "k": "x"}, {"u": "B"}, {"t": "Nope"});
    z!(IntUntMap: IntUntMap; true; {"t": "U"}, {"t": "Unt", "p": 1}, {"t": "Unt", "k": true}; {"t": "Unt", "k": 1});
    z!(IntNewHost: IntNewHost; {"h": true, "t": "Ext", "A": {"x": 1}}, {"h": true, "t": "Unt", "p": 1}, {"h": false, "t": "Int", "u": "A", "x": 1}, {"h": true, "t": "Unit"}, {"h": true, "t": "Mid", "z": 1, "B": 2}; {"h": true, "t": "Ext", "A": {}}, {"t": "Unit"}, {"h": true}, {"h": true, "t": "Mid", "z": 1});
    z!(AdjOpt: AdjOpt; {"t": "A", "c": null}, {"t": "A", "c": 1}, {"t": "A"}, {"t": "B", "c": {"B": 1}}, {"t": "B", "c": null}, {"t": "C", "c": {"x": 1}}, {"t": "C", "c": {}}, {"t": "D", "c": null}, {"t": "E", "c": null}, {"t": "F", "c": null}, {"t": "G", "c": [1]}, {"t": "H", "c": null}, {"t": "H", "c": true}; {"t": "C"}, {"t": "G"}, {"t": "A", "c": "x"}, {"t": "B", "c": {}}, {"t": "D", "c": 1}, {"c": 1}, {"t": "Nope"});
    z!(AdjDeny: AdjDeny; {"t": "U"}, {"t": "A", "c": 1}, {"t": "A", "c": null}, {"t": "B", "c": {"x": 1}}, {"t": "T", "c": [1, null]}; {"t": "U", "zz": 1}, {"t": "A", "c": 1, "zz": 1}, {"t": "B"}, {"t": "B", "c": {"x": 1, "y": 2}}, {"t": "T", "c": [1]}, {"t": "T", "c": [1, null, null]});
    z!(ExtOpt: ExtOpt; {"A": null}, {"A": 1}, {"B": null}, {"B": {"B": 1}}, "U", {"D": null}, {"F": null}, {"E": []}, {"S": {}}, {"One": 1}, {"T": [null, true]}; {"A": "x"}, {"B": {}}, "A", {"D": 1}, {"E": [1]}, {"T": [1]}, {"T": [1, true, 1]}, {"A": 1, "B": null}, {});
    z!(UntOpt: UntOpt; {"k": 1}, {"a": 2, "k": 1}, "s", [1, null], [1, true], null; {}, {"a": 1}, [1], [1, 2], 1, true);
    z!(Tuples: Tuples; [1, null, [true], [1], [], null, null], [1, 2, [false], [0], [], null, null]; [1, null, [true], [1], [], null], [1, null, [], [1], [], null, null], [1, null, true, [1], [], null, null], [1, null, [true], [], [], null, null], [1, null, [true], [1], [1], null, null]);
    z!(One: One; 1; [1], "x", null);
    z!(TupSkip: TupSkip; [1, "x"]; [1], [1, true, "x", true], ["x", 1], [1, "x", true]);
    z!(TwoLeft: TwoLeft; [1]; [], [1, true], 1, ["x"]);
    z!(Phantoms: Phantoms<Never>; {"p": null, "o": null, "x": 1}; {"x": "a"}, {"p": null});
    z!(Dead: Dead; {"a": [], "i": null, "j": {}, "u": [], "w": [], "r": null, "n": null, "uw": []}, {"a": [], "i": null, "j": {}, "u": [], "w": ["A", {"B": {"x": 1}}], "r": null, "n": null, "uw": [true, {"a": 1}]}; {"a": ["A"], "i": null, "j": {}, "u": [], "w": [], "uw": []}, {"a": [], "i": {"t": "A"}, "j": {}, "u": [], "w": [], "uw": []}, {"a": [], "j": {"k": {"t": "A"}}, "u": [], "w": [], "uw": []}, {"a": [], "j": {}, "u": [null], "w": [], "uw": []}, {"a": [], "j": {}, "u": [], "w": [], "r": "A", "uw": []}, {"a": [], "j": {}, "u": [], "w": [], "n": {}, "uw": []});
    z!(FlatTwo: FlatTwo; {"P1": 1, "kind": "P4", "n": 1}, {"P2": {"p": true}, "kind": "P3", "three": 3, "n": 1}; {"P1": 1, "n": 1}, {"kind": "P4", "n": 1}, {"P1": 1, "kind": "P3", "n": 1}, {"P1": 1, "kind": "P4"});
    z!(FlatOptTwo: FlatOptTwo; {"P1": 1, "kind": "P4", "n": 1, "m": true}, {"m": true}; {"n": 1}, {"m": 1}, {"P1": 1, "kind": "P4", "n": 1});
    z!(FlatOptPure: FlatOptPure; {"P1": 1, "kind": "P4", "m": true}, {"m": true}; {"m": 1}, {"P1": 1, "kind": "P4"});
    z!(DenyInt: DenyInt; {"t": "A", "d": {"a": 1}, "e": [{"a": 1, "b": null}]}, {"t": "b/~", "x": 1}; {"t": "A", "d": {"a": 1, "zz": 1}, "e": []}, {"t": "A", "d": {"a": 1}, "e": [{"a": 1, "t": "A"}]}, {"t": "B", "x": 1});
    z!(DenyVar: DenyVar; {"A": {"a": 1}}, {"B": {"$ref": 1, "d": {"a": 1, "b": 2}}}; {"A": {"a": 1, "zz": 1}}, {"B": {"d": null}}, {"B": {"$ref": 1, "d": {"a": 1, "c": 1}}});
    z!(Opts: Opts; {"a": null, "b": null, "c": null, "d": true, "e": null, "f": null, "g": [null, "N", "null"], "h": {"B": 1}, "i": {"a": 1}}, {"a": "N", "b": "null", "c": false, "d": null, "g": [], "h": null, "i": null}; {"g": ["M"]}, {"g": [], "a": "M"}, {"g": [], "b": "x"}, {"g": [], "c": 1}, {"g": [], "d": "null"}, {"g": [], "e": 1}, {"g": [], "h": {}}, {"g": [], "i": {"a": 1, "zz": 1}}, {"g": null});
    if which == "list" {
        println!("{}", names[..recursive].join("\n"));
        return;
    }
    if which == "list-shapes" {
        println!("{}", names[recursive..].join("\n"));
        return;
    }
    assert!(names.contains(&&*which), "no such type");
    rep.finish();
}
