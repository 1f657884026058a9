//! C04, generic part: the provided implementations over *arbitrary* argument schemas. A marker type hands out a
//! random schema; what `Option<X>`, `Vec<X>`, maps, tuples, results … of it accept is derived from what `X` accepts.
use crate::eval::Eval;
use crate::val::Dia;
use crate::{canon, Report, Rng};
use schemars::generate::SchemaGenerator;
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

#[derive(Clone, Default)]
struct Handed {
    schema: Value,
    inline: bool,
}
thread_local!(static H: RefCell<[Handed; 4]> = RefCell::new(Default::default()));

/// Types 0 and 1 are the arguments; 2 and 3 are definitions those refer to.
pub struct M<const N: usize>;
impl<const N: usize> JsonSchema for M<N> {
    fn inline_schema() -> bool {
        H.with(|h| h.borrow()[N].inline)
    }
    fn schema_name() -> Cow<'static, str> {
        format!("M{N}").into()
    }
    fn schema_id() -> Cow<'static, str> {
        format!("combi::M{N}").into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let mut v = H.with(|h| h.borrow()[N].schema.clone());
        fill(&mut v, g);
        v.try_into().unwrap()
    }
}
/// `{"$type": n}` stands for a reference to M<n>.
fn fill(v: &mut Value, g: &mut SchemaGenerator) {
    match v {
        Value::Object(o) => {
            if let Some(n) = o.get("$type").and_then(|n| n.as_u64()) {
                *v = if n == 2 { g.subschema_for::<M<2>>() } else { g.subschema_for::<M<3>>() }.to_value();
            } else {
                o.values_mut().for_each(|x| fill(x, g));
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| fill(x, g)),
        _ => {}
    }
}

fn scalar(r: &mut Rng) -> Value {
    match r.below(9) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(r.range(0, 9) as i64 - 3),
        3 => json!(1.5),
        4 => json!(["a", "b", "", "null"][r.below(4)]),
        5 => json!([]),
        6 => json!({}),
        7 => json!(false),
        _ => json!(r.range(0, 3)),
    }
}

fn inner(r: &mut Rng, depth: usize, refs: bool) -> Value {
    let mut v = match r.below(if depth == 0 { 11 } else { 19 }) {
        0 => return json!(true),
        1 => json!({}),
        2 => {
            let t = *r.pick(&["string", "integer", "number", "boolean", "null", "array", "object"]);
            json!({"type": t})
        }
        3 => {
            let mut ts = vec!["string", "integer", "boolean", "null", "array", "object"];
            r.shuffle(&mut ts);
            ts.truncate(1 + r.below(3));
            json!({"type": ts})
        }
        4 => json!({"const": scalar(r)}),
        5 => json!({"type": "string", "const": "a"}),
        6 => {
            let mut e: Vec<Value> = Vec::new();
            for _ in 0..1 + r.below(4) {
                let s = scalar(r);
                if !e.contains(&s) {
                    e.push(s);
                }
            }
            json!({"enum": e})
        }
        7 => json!({"type": "string", "enum": ["a", "b"]}),
        8 => json!({"type": ["string", "null"], "enum": ["a", null]}),
        9 => json!({"type": "integer", "minimum": 1, "maximum": 5}),
        10 => json!({"minimum": 2, "maxLength": 1}),
        11 => json!({"type": "object", "properties": {"a": inner(r, depth - 1, refs)}, "required": ["a"], "additionalProperties": r.chance(1, 2)}),
        12 => json!({"type": "array", "items": inner(r, depth - 1, refs)}),
        13 => json!({"anyOf": [inner(r, depth - 1, refs), inner(r, depth - 1, refs)]}),
        14 => json!({"anyOf": [inner(r, depth - 1, refs), {"type": "null"}]}),
        15 => json!({"oneOf": [inner(r, depth - 1, refs), inner(r, depth - 1, refs)]}),
        16 => json!({"allOf": [inner(r, depth - 1, refs)], "type": ["string", "integer", "null"]}),
        17 => json!({"not": inner(r, depth - 1, false)}),
        _ => json!({"if": inner(r, depth - 1, refs), "then": inner(r, depth - 1, refs), "else": inner(r, depth - 1, refs)}),
    };
    if refs && r.chance(1, 8) {
        return json!({"$type": 2 + r.below(2)});
    }
    if r.chance(1, 12) {
        return json!(false);
    }
    if r.chance(1, 5) {
        v["title"] = json!("T");
    }
    if r.chance(1, 6) {
        v["description"] = json!("D");
    }
    v
}

fn instance(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 8 }) {
        5 => (0..r.below(3)).map(|_| instance(r, depth - 1)).collect(),
        6 => {
            let mut m = Map::new();
            m.insert("a".into(), instance(r, depth - 1));
            if r.chance(1, 3) {
                m.insert("b".into(), instance(r, depth - 1));
            }
            m.into()
        }
        _ => scalar(r),
    }
}

/// What a built-in over X (0) and Y (1) stands for.
enum S {
    X(u8),
    Opt(Box<S>),
    Seq(Box<S>),
    Set(Box<S>),
    Arr(Box<S>, usize),
    Tup(Vec<S>),
    Map(Box<S>),
    IntMap(Box<S>),
    /// exactly one member, of that name
    One(Vec<(&'static str, S)>, Vec<&'static str>),
    Members(Vec<(&'static str, S)>),
}
use S::*;
impl S {
    fn ok(&self, v: &Value, x: &dyn Fn(u8, &Value) -> Option<bool>) -> Option<bool> {
        let all = |s: &S, vs: &mut dyn Iterator<Item = &Value>| -> Option<bool> {
            let mut r = true;
            for v in vs {
                r &= s.ok(v, x)?;
            }
            Some(r)
        };
        Some(match self {
            X(n) => x(*n, v)?,
            Opt(s) => v.is_null() || s.ok(v, x)?,
            Seq(s) => match v.as_array() {
                Some(a) => all(s, &mut a.iter())?,
                None => false,
            },
            Set(s) => match v.as_array() {
                Some(a) => {
                    let u: BTreeSet<String> = a.iter().map(canon).collect();
                    all(s, &mut a.iter())? && u.len() == a.len()
                }
                None => false,
            },
            Arr(s, n) => match v.as_array() {
                Some(a) => a.len() == *n && all(s, &mut a.iter())?,
                None => false,
            },
            Tup(ss) => match v.as_array() {
                Some(a) if a.len() == ss.len() => {
                    let mut r = true;
                    for (s, v) in ss.iter().zip(a) {
                        r &= s.ok(v, x)?;
                    }
                    r
                }
                _ => false,
            },
            Map(s) => match v.as_object() {
                Some(o) => all(s, &mut o.values())?,
                None => false,
            },
            IntMap(s) => match v.as_object() {
                Some(o) => {
                    if o.keys().any(|k| k.parse::<u8>().is_err()) {
                        return if o.keys().any(|k| k.parse::<i64>().is_err()) { Some(false) } else { None };
                    }
                    all(s, &mut o.values())?
                }
                None => false,
            },
            One(alts, units) => match v {
                Value::String(u) => units.contains(&u.as_str()),
                Value::Object(o) if o.len() == 1 => {
                    let (k, v) = o.iter().next().unwrap();
                    match alts.iter().find(|a| a.0 == k) {
                        Some(a) => a.1.ok(v, x)?,
                        None => false,
                    }
                }
                Value::Object(o) if o.is_empty() => false,
                Value::Object(_) => return None,
                _ => false,
            },
            Members(ms) => match v.as_object() {
                Some(o) => {
                    let mut r = true;
                    for (k, s) in ms {
                        match o.get(*k) {
                            Some(v) => r &= s.ok(v, x)?,
                            None => r = false,
                        }
                    }
                    r
                }
                None => false,
            },
        })
    }
    fn gen(&self, r: &mut Rng) -> Value {
        if r.chance(1, 9) {
            return instance(r, 2);
        }
        match self {
            X(_) => instance(r, 2),
            Opt(s) => if r.chance(1, 4) { Value::Null } else { s.gen(r) },
            Seq(s) | Set(s) => (0..r.below(4)).map(|_| s.gen(r)).collect(),
            Arr(s, n) => (0..if r.chance(1, 5) { r.below(4) } else { *n }).map(|_| s.gen(r)).collect(),
            Tup(ss) => {
                let mut a: Vec<Value> = ss.iter().map(|s| s.gen(r)).collect();
                if r.chance(1, 8) {
                    a.pop();
                } else if r.chance(1, 8) {
                    a.push(instance(r, 1));
                }
                a.into()
            }
            Map(s) => (0..r.below(3)).map(|i| (format!("k{i}"), s.gen(r))).collect::<serde_json::Map<_, _>>().into(),
            IntMap(s) => (0..r.below(3)).map(|i| (if r.chance(1, 9) { "x".into() } else { format!("{}", i * 100) }, s.gen(r))).collect::<serde_json::Map<_, _>>().into(),
            One(alts, units) => {
                if !units.is_empty() && r.chance(1, 4) {
                    return json!(units[0]);
                }
                let a = &alts[r.below(alts.len())];
                let mut m = serde_json::Map::new();
                m.insert(if r.chance(1, 9) { "Nope".into() } else { a.0.into() }, a.1.gen(r));
                m.into()
            }
            Members(ms) => {
                let mut m = serde_json::Map::new();
                for (k, s) in ms {
                    if !r.chance(1, 9) {
                        m.insert(k.to_string(), s.gen(r));
                    }
                }
                m.into()
            }
        }
    }
}

type Root = fn(SchemaGenerator) -> Schema;
fn combinators() -> Vec<(&'static str, Root, S)> {
    fn b(s: S) -> Box<S> {
        Box::new(s)
    }
    type A = M<0>;
    type B = M<1>;
    macro_rules! c { ($($t:ty => $s:expr),* $(,)?) => { vec![$((stringify!($t), (|g| g.into_root_schema_for::<$t>()) as Root, $s)),*] } }
    let mut v = c! {
        Option<A> => Opt(b(X(0))),
        Option<Option<A>> => Opt(b(X(0))),
        Vec<A> => Seq(b(X(0))),
        VecDeque<Option<A>> => Seq(b(Opt(b(X(0))))),
        Option<Vec<A>> => Opt(b(Seq(b(X(0))))),
        BTreeSet<A> => Set(b(X(0))),
        [A; 2] => Arr(b(X(0)), 2),
        [A; 1] => Arr(b(X(0)), 1),
        [Option<A>; 3] => Arr(b(Opt(b(X(0)))), 3),
        (A, B) => Tup(vec![X(0), X(1)]),
        (A,) => Tup(vec![X(0)]),
        (A, Option<B>, A) => Tup(vec![X(0), Opt(b(X(1))), X(0)]),
        BTreeMap<String, A> => Map(b(X(0))),
        HashMap<String, Option<A>> => Map(b(Opt(b(X(0))))),
        BTreeMap<u8, A> => IntMap(b(X(0))),
        Result<A, B> => One(vec![("Ok", X(0)), ("Err", X(1))], vec![]),
        Option<Result<A, Option<B>>> => Opt(b(One(vec![("Ok", X(0)), ("Err", Opt(b(X(1))))], vec![]))),
        std::ops::Bound<A> => One(vec![("Included", X(0)), ("Excluded", X(0))], vec!["Unbounded"]),
        std::ops::Range<A> => Members(vec![("start", X(0)), ("end", X(0))]),
        Box<A> => X(0),
        std::rc::Rc<Option<A>> => Opt(b(X(0))),
        Option<Box<A>> => Opt(b(X(0))),
        std::rc::Weak<A> => Opt(b(X(0))),
        Option<std::sync::Mutex<A>> => Opt(b(X(0))),
        Option<(A, B)> => Opt(b(Tup(vec![X(0), X(1)]))),
    };
    v.extend(c! {
        either1::Either<A, B> => One(vec![("Left", X(0)), ("Right", X(1))], vec![]),
        Option<smallvec1::SmallVec<[u8; 2]>> => Opt(b(Seq(b(X(9))))),
        arrayvec07::ArrayVec<A, 2> => Seq(b(X(0))),
        indexmap2::IndexMap<String, A> => Map(b(X(0))),
    });
    v.retain(|(n, ..)| !n.contains("SmallVec"));
    v
}

pub fn c04(rep: &mut Report, rng: &mut Rng) {
    let cs = combinators();
    for round in 0..Report::scale(700, 12000) {
        let r = &mut *rng;
        let handed = [0, 1, 2, 3].map(|i| Handed { schema: inner(r, 2, i < 2), inline: r.chance(1, 3) });
        H.with(|h| *h.borrow_mut() = handed.clone());
        let d = *r.pick(&[Dia::D20, Dia::D20, Dia::D19, Dia::D7]);
        let inline = r.chance(1, 4);
        let settings = || {
            let mut s = d.settings();
            s.inline_subschemas = inline;
            s
        };
        let xs = [
            settings().into_generator().into_root_schema_for::<M<0>>().to_value(),
            settings().into_generator().into_root_schema_for::<M<1>>().to_value(),
        ];
        let ex = [Eval::new(&xs[0], d), Eval::new(&xs[1], d)];
        let judge = |n: u8, v: &Value| ex[n as usize].is_valid(v);
        for _ in 0..4 {
            let (name, root, s) = &cs[r.below(cs.len())];
            rep.breadcrumb(&format!("{name} over {}", handed[0].schema));
            let doc = root(settings().into_generator()).to_value();
            let e = Eval::new(&doc, d);
            for _ in 0..12 {
                let v = s.gen(r);
                let (Some(want), got) = (s.ok(&v, &judge), e.is_valid(&v)) else {
                    rep.count("instances-undecided");
                    continue;
                };
                rep.count(if want { "generic-accepted" } else { "generic-refused" });
                rep.case(&format!("combi/{name}/{}/{}", handed[0].schema, canon(&v)), !v.is_null());
                // an ArrayVec may be shorter or longer than its capacity allows
                if name.contains("ArrayVec") && v.as_array().is_some_and(|a| a.len() > 2) {
                    continue;
                }
                if got != Some(want) {
                    rep.violation(
                        &format!("generic-argument:{name}"),
                        &format!("{name} of a type with schema {} (and {}): {got:?} for {v} under {}, expected {want}", handed[0].schema, handed[1].schema, d.name()),
                        json!({"type": name, "args": [handed[0].schema, handed[1].schema, handed[2].schema, handed[3].schema], "schema": doc, "instance": v}),
                    );
                }
            }
        }
        if round == 0 {
            rep.sample("generic-argument", || json!({"X": handed[0].schema, "Y": handed[1].schema}));
        }
    }
}
