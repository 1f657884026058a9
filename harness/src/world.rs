//! Random type worlds: a family of `JsonSchema` types whose names, inlining and references to each
//! other are drawn at run time, driven through random histories of generator operations. Every
//! schema carries the identity of its type (`x-id`), so any conflation shows.
use crate::val::Dia;
use crate::{canon, dialect, guarded, walk, Report, Rng};
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{JsonSchema, Schema};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const NODES: usize = 12;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Edge {
    Direct(usize),
    Opt(usize),
    Vec(usize),
    Boxed(usize),
    Map(usize),
    Embed(usize),
    Hidden(usize),
    Tuple(usize, usize),
}
#[derive(Debug, Clone)]
pub struct Node {
    pub name: String,
    pub id: String,
    pub inline: bool,
    pub alias: Option<usize>,
    pub edges: Vec<Edge>,
}
#[derive(Debug, Clone)]
pub struct World {
    pub nodes: Vec<Node>,
}
thread_local!(static W: RefCell<Option<Rc<World>>> = const { RefCell::new(None) });
pub fn set_world(w: &Rc<World>) {
    W.with(|x| *x.borrow_mut() = Some(w.clone()));
}
fn node(i: usize) -> Node {
    W.with(|x| x.borrow().as_ref().expect("world").nodes[i].clone())
}

pub struct N<const I: usize>;
impl<const I: usize> JsonSchema for N<I> {
    fn inline_schema() -> bool {
        node(I).inline
    }
    fn schema_name() -> Cow<'static, str> {
        node(I).name.into()
    }
    fn schema_id() -> Cow<'static, str> {
        node(I).id.into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let n = node(I);
        if let Some(j) = n.alias {
            return OPS[j].sub(g);
        }
        let mut props = Map::new();
        for (k, e) in n.edges.iter().enumerate() {
            let s = match *e {
                Edge::Direct(j) => OPS[j].sub(g),
                Edge::Opt(j) => (OPS[j].opt)(g),
                Edge::Vec(j) => (OPS[j].vec)(g),
                Edge::Boxed(j) => (OPS[j].boxed)(g),
                Edge::Map(j) => (OPS[j].map)(g),
                Edge::Embed(j) => (OPS[j].embed)(g),
                Edge::Hidden(j) => {
                    let _ = OPS[j].sub(g);
                    continue;
                }
                Edge::Tuple(j, l) => {
                    let a = OPS[j].sub(g);
                    let b = OPS[l].sub(g);
                    schemars::json_schema!({"type": "array", "prefixItems": [a, b]})
                }
            };
            props.insert(format!("e{k}"), s.to_value());
        }
        schemars::json_schema!({"type": "object", "x-id": I, "properties": props})
    }
}

pub struct NodeOps {
    sub: fn(&mut SchemaGenerator) -> Schema,
    opt: fn(&mut SchemaGenerator) -> Schema,
    vec: fn(&mut SchemaGenerator) -> Schema,
    boxed: fn(&mut SchemaGenerator) -> Schema,
    map: fn(&mut SchemaGenerator) -> Schema,
    embed: fn(&mut SchemaGenerator) -> Schema,
    pub root: fn(&mut SchemaGenerator) -> Schema,
    pub into_root: fn(SchemaGenerator) -> Schema,
}
impl NodeOps {
    pub fn sub(&self, g: &mut SchemaGenerator) -> Schema {
        (self.sub)(g)
    }
}
macro_rules! ops { ($($i:literal)*) => { pub static OPS: [NodeOps; NODES] = [$(NodeOps {
    sub: |g| g.subschema_for::<N<$i>>(),
    opt: |g| g.subschema_for::<Option<N<$i>>>(),
    vec: |g| g.subschema_for::<Vec<N<$i>>>(),
    boxed: |g| g.subschema_for::<Box<N<$i>>>(),
    map: |g| g.subschema_for::<BTreeMap<String, N<$i>>>(),
    embed: |g| <N<$i>>::json_schema(g),
    root: |g| g.root_schema_for::<N<$i>>(),
    into_root: |g| g.into_root_schema_for::<N<$i>>(),
}),*]; } }
ops!(0 1 2 3 4 5 6 7 8 9 10 11);

const NAMES: &[&str] = &[
    "A", "A", "A", "A2", "A3", "A22", "B", "B", "a/b", "a~1b", "a~b", "a%2Fb", "a b", "é", "", "#", "$defs", "A<B>", "A\"", "Array_of_A",
    "\u{1}x", "日本",
];

pub fn random_world(r: &mut Rng) -> World {
    let n = NODES;
    let mut nodes: Vec<Node> = (0..n)
        .map(|i| Node {
            name: r.pick(NAMES).to_string(),
            id: format!("mod{i}::{i}"),
            inline: r.chance(1, 5),
            alias: None,
            edges: vec![],
        })
        .collect();
    // some ids look alike
    for i in 0..n {
        if r.chance(1, 4) {
            nodes[i].id = format!("{}{}", ["A", "A2", "mod", "#"][r.below(4)], i);
        }
    }
    let dense = r.range(1, 4);
    for i in 0..n {
        if i + 1 < n && r.chance(1, 8) {
            nodes[i].alias = Some(r.range(i + 1, n - 1));
            continue;
        }
        for _ in 0..r.below(dense + 1) {
            let j = r.below(n);
            let fwd = if i + 1 < n { Some(r.range(i + 1, n - 1)) } else { None };
            // a reference from or to an inline type goes forward, so that no cycle is inline only
            let safe = |j: usize| if nodes[j].inline || nodes[i].inline { fwd } else { Some(j) };
            let e = match r.below(9) {
                0 | 1 => safe(j).map(Edge::Direct),
                2 => safe(j).map(Edge::Opt),
                3 => safe(j).map(Edge::Vec),
                4 => safe(j).map(Edge::Boxed),
                5 => safe(j).map(Edge::Map),
                6 => fwd.map(Edge::Embed),
                7 => safe(j).map(Edge::Hidden),
                _ => {
                    let l = r.below(n);
                    safe(j).and_then(|a| safe(l).map(|b| Edge::Tuple(a, b)))
                }
            };
            nodes[i].edges.extend(e);
        }
    }
    World { nodes }
}

impl World {
    fn target(&self, mut i: usize) -> usize {
        while let Some(j) = self.nodes[i].alias {
            i = j;
        }
        i
    }
    /// Does `s` (inside the document `root`) describe type `i`, all the way down?
    pub fn faithful(&self, s: &Value, i: usize, root: &Value, checked: &mut u64) -> Result<(), String> {
        let mut seen = BTreeSet::new();
        self.go(s, i, root, &mut seen, "", checked)
    }
    fn go(&self, s: &Value, i: usize, root: &Value, seen: &mut BTreeSet<(String, usize)>, at: &str, n: &mut u64) -> Result<(), String> {
        let mut cur = s;
        let mut hops = 0;
        loop {
            if cur.get("x-id").is_none() {
                // a reference next to other keywords, as draft-07 needs it
                if let Some([x]) = cur.get("allOf").and_then(Value::as_array).map(Vec::as_slice) {
                    cur = x;
                }
            }
            let Some(r) = cur.get("$ref").and_then(Value::as_str) else { break };
            if !walk::valid_fragment(r.trim_start_matches('#')) {
                return Err(format!("{at}: {r} is not a valid fragment"));
            }
            cur = walk::resolve(root, r).ok_or_else(|| format!("{at}: {r} does not resolve"))?;
            *n += 1;
            if hops == 0 && !seen.insert((r.to_string(), i)) {
                return Ok(());
            }
            hops += 1;
            if hops > 50 {
                return Err(format!("{at}: reference cycle at {r}"));
            }
        }
        let t = self.target(i);
        if cur.get("x-id") != Some(&json!(t)) {
            return Err(format!("{at}: schema for type {t} expected, found {}", short(cur)));
        }
        *n += 1;
        let empty = Map::new();
        let props = cur.get("properties").and_then(Value::as_object).unwrap_or(&empty);
        let edges: Vec<(usize, &Edge)> =
            self.nodes[t].edges.iter().enumerate().filter(|(_, e)| !matches!(e, Edge::Hidden(_))).collect();
        if props.len() != edges.len() {
            return Err(format!("{at}: type {t} has {} members instead of {}", props.len(), edges.len()));
        }
        for (k, e) in edges {
            let key = format!("e{k}");
            let p = props.get(&key).ok_or_else(|| format!("{at}: type {t} lacks {key}"))?;
            let here = format!("{at}/{t}.{key}");
            match *e {
                Edge::Direct(j) | Edge::Boxed(j) | Edge::Embed(j) => self.go(p, j, root, seen, &here, n)?,
                Edge::Opt(j) => {
                    let inner = match p.get("anyOf").and_then(Value::as_array) {
                        Some(a) if a.len() == 2 && a[1] == json!({"type": "null"}) => &a[0],
                        _ if p.get("type") == Some(&json!(["object", "null"])) => p,
                        _ => return Err(format!("{here}: optional type is {}", short(p))),
                    };
                    self.go(inner, j, root, seen, &here, n)?
                }
                Edge::Vec(j) => self.go(p.get("items").ok_or(format!("{here}: no items"))?, j, root, seen, &here, n)?,
                Edge::Map(j) => {
                    self.go(p.get("additionalProperties").ok_or(format!("{here}: no additionalProperties"))?, j, root, seen, &here, n)?
                }
                Edge::Tuple(j, l) => {
                    let a = p.get("prefixItems").or(p.get("items")).and_then(Value::as_array).filter(|a| a.len() == 2);
                    let a = a.ok_or(format!("{here}: no pair"))?;
                    self.go(&a[0], j, root, seen, &here, n)?;
                    self.go(&a[1], l, root, seen, &here, n)?;
                }
                Edge::Hidden(_) => {}
            }
        }
        Ok(())
    }
}

fn short(v: &Value) -> String {
    let mut s = v.to_string();
    if s.len() > 160 {
        let mut n = 160;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    s
}

/// A random definitions path (a plain JSON pointer, possibly with the `#` and `/` that are ignored).
pub fn random_path(rng: &mut Rng) -> String {
    const SEGMENTS: &[&str] = &[
        "$defs", "definitions", "x-a", "~01", "~10", "~0", "~1", "~1~0", "~00", "x~01y", "%41", "x%2Fy", "%", "a b", "\u{e9}", "0", "\"", "<T>", "^\u{1F600}", "x#y", "a+b",
    ];
    let mut p = String::from(if rng.chance(1, 4) { "#" } else { "" });
    for _ in 0..rng.range(1, 3) {
        p.push('/');
        p.push_str(rng.pick(SEGMENTS));
    }
    if rng.chance(1, 4) {
        p.push('/');
    }
    p
}

pub const PATHS: &[&str] = &["/$defs", "/definitions", "#/$defs", "/$defs/", "/components/schemas", "/x-types/v1"];

pub fn random_settings(r: &mut Rng) -> (SchemaSettings, String) {
    let d = *r.pick(&[Dia::D20, Dia::D20, Dia::D19, Dia::D7]);
    let mut s = d.settings();
    let mut label = d.name().to_string();
    if r.chance(1, 4) {
        s.inline_subschemas = true;
        label += "/inline";
    }
    if r.chance(1, 3) {
        let p = *r.pick(PATHS);
        if d == Dia::D20 || p.trim_start_matches('#').matches('/').count() == 1 {
            s.definitions_path = p.into();
            label += &format!(" defs={p}");
        }
    }
    if r.chance(1, 6) {
        s.contract = schemars::generate::Contract::Serialize;
    }
    (s, label)
}

pub fn ptr_of(s: &SchemaSettings) -> String {
    s.definitions_path.trim_start_matches('#').trim_end_matches('/').to_string()
}

pub fn mount(schema: &Value, defs: &Map<String, Value>, ptr: &str) -> Value {
    let mut doc = json!({ "allOf": [schema] });
    let mut slot = &mut doc;
    for t in ptr.split('/').skip(1) {
        slot = slot.as_object_mut().unwrap().entry(t.replace("~1", "/").replace("~0", "~")).or_insert(json!({}));
    }
    *slot = Value::Object(defs.clone());
    doc
}

#[derive(Clone, Default)]
struct Shadow {
    /// type -> reference handed out; definition name -> type
    refs: BTreeMap<usize, String>,
    names: BTreeMap<String, usize>,
    taken: Map<String, Value>,
    edits: BTreeMap<String, u64>,
}

/// C07: random histories; after every operation the shadow state is compared with what the
/// generator handed out.
pub fn c07(rep: &mut Report, rng: &mut Rng) {
    for h in 0..Report::scale(2500, 40000) {
        let world = Rc::new(random_world(rng));
        set_world(&world);
        let (settings, label) = random_settings(rng);
        let ptr = ptr_of(&settings);
        let inline = settings.inline_subschemas;
        let seed = rng.s;
        rep.breadcrumb(&format!("world-history: {seed} {label}"));
        let mut gens: Vec<(SchemaGenerator, Shadow)> = vec![(settings.into_generator(), Shadow::default())];
        let mut log: Vec<String> = vec![];
        let n_ops = rng.range(3, 14);
        for _ in 0..n_ops {
            let gi = rng.below(gens.len());
            let i = rng.below(NODES);
            let op = rng.weighted(&[34, 16, 8, 8, 8, 8, 8, 6, 6]);
            log.push(format!("g{gi}.{}({i})", ["sub", "root", "into_root(clone)", "clone", "take", "edit", "remove+sub", "definitions", "root_for_value"][op]));
            let r = guarded(|| step(&world, &mut gens, gi, i, op, inline, &ptr, rng, rep));
            let r = match r {
                Ok(x) => x,
                Err(e) => Err(format!("panicked: {e}")),
            };
            if let Err(e) = r {
                let kind = e.split(|c: char| c.is_ascii_digit() || c == ':').next().unwrap_or("").trim().replace(' ', "-");
                rep.violation(
                    &format!("world:{kind}"),
                    &format!("history {log:?} ({label}): {e}"),
                    json!({"world": format!("{world:?}"), "history": log, "settings": label, "problem": e}),
                );
                break;
            }
        }
        rep.case(&format!("{log:?}{world:?}"), log.len() > 3);
        for l in &log {
            rep.count(&format!("op:{}", l.split(['.', '(']).nth(1).unwrap_or("")));
        }
        if h < 3 {
            rep.sample("history", || json!({"settings": label, "history": log, "types": format!("{:?}", world.nodes)}));
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn step(
    w: &World,
    gens: &mut Vec<(SchemaGenerator, Shadow)>,
    gi: usize,
    i: usize,
    op: usize,
    inline: bool,
    ptr: &str,
    rng: &mut Rng,
    rep: &mut Report,
) -> Result<(), String> {
    let mut checked = 0;
    match op {
        1 | 2 => {
            let doc = if op == 1 { (OPS[i].root)(&mut gens[gi].0).to_value() } else { (OPS[i].into_root)(gens[gi].0.clone()).to_value() };
            w.faithful(&doc, i, &doc, &mut checked).map_err(|e| format!("root: {e}"))?;
            let (n, ps) = dialect::ref_problems(&doc, ptr);
            rep.add("references", n as u64);
            if let Some(p) = ps.first() {
                return Err(format!("root reference: {p}"));
            }
            if doc.get("title").is_none() {
                return Err("root without title".into());
            }
        }
        3 => {
            if gens.len() < 3 {
                let c = (gens[gi].0.clone(), gens[gi].1.clone());
                gens.push(c);
            }
        }
        4 => {
            let (g, sh) = &mut gens[gi];
            let before = g.definitions().clone();
            let d = g.take_definitions(false);
            if canon(&json!(before)) != canon(&json!(d)) {
                return Err("take_definitions returned something else than definitions".into());
            }
            if !g.definitions().is_empty() {
                return Err("take_definitions left definitions behind".into());
            }
            sh.taken.extend(d);
            sh.edits.clear();
        }
        5 => {
            let (g, sh) = &mut gens[gi];
            let keys: Vec<String> = g.definitions().keys().cloned().collect();
            if let Some(k) = keys.get(rng.below(keys.len().max(1))) {
                let v = rng.next() >> 12;
                if let Some(o) = g.definitions_mut().get_mut(k).and_then(Value::as_object_mut) {
                    o.insert("x-edited".into(), json!(v));
                    sh.edits.insert(k.clone(), v);
                }
            }
        }
        6 => {
            // a removed definition is generated again on the next request
            let (g, sh) = &mut gens[gi];
            if let Some((&t, r)) = sh.refs.iter().next() {
                let name = walk::ref_tokens(r).unwrap().pop().unwrap();
                if g.definitions_mut().remove(&name).is_some() {
                    sh.edits.remove(&name);
                    request(w, g, sh, t, inline, ptr, &mut checked)?;
                }
            }
        }
        7 => {
            let (g, _) = &mut gens[gi];
            let a = canon(&json!(g.definitions()));
            let b = canon(&json!(*g.definitions_mut()));
            if a != b {
                return Err("definitions and definitions_mut differ".into());
            }
        }
        8 => value_root(w, &mut gens[gi].0, ptr, rng, &mut checked)?,
        _ => {
            let (g, sh) = &mut gens[gi];
            request(w, g, sh, i, inline, ptr, &mut checked)?;
        }
    }
    // quiescent-point invariants of every generator
    for (g, sh) in gens.iter_mut() {
        let defs = g.definitions();
        let doc = mount(&json!(true), defs, ptr);
        let mut ids: BTreeMap<u64, Vec<&str>> = BTreeMap::new();
        for (name, d) in defs {
            if d.get("$ref").is_some() {
                continue; // alias of another type
            }
            let Some(id) = d.get("x-id").and_then(Value::as_u64) else {
                return Err(format!("definition {name:?} is {}", short(d)));
            };
            let of = ids.entry(id).or_default();
            of.push(name);
            // (a definition of an alias of an inline type has the inline type's content)
            let stand_ins = (0..NODES).filter(|j| w.target(*j) == id as usize).count();
            if of.len() > stand_ins {
                return Err(format!("type {id} has more than {stand_ins} definitions: {of:?}"));
            }
            if let Some(t) = sh.names.get(name) {
                if w.target(*t) != id as usize {
                    return Err(format!("definition {name:?} of type {t} became that of {id}"));
                }
            }
            w.faithful(d, id as usize, &doc, &mut checked).map_err(|e| format!("definition {name:?}: {e}"))?;
        }
        for (name, v) in &sh.edits {
            if defs.get(name).and_then(|d| d.get("x-edited")) != Some(&json!(v)) {
                return Err(format!("the caller's edit of definition {name:?} was lost"));
            }
        }
        // references handed out earlier still lead to their type (here or in what was taken)
        let mut all = sh.taken.clone();
        all.extend(defs.clone());
        let all = mount(&json!(true), &all, ptr);
        for (t, r) in &sh.refs {
            w.faithful(&json!({ "$ref": r }), *t, &all, &mut checked).map_err(|e| format!("earlier reference of type {t}: {e}"))?;
        }
    }
    rep.add("schema-objects-matched", checked);
    Ok(())
}

/// A root schema inferred from a value carries the generator's definitions and leaves them alone.
fn value_root(w: &World, g: &mut SchemaGenerator, ptr: &str, rng: &mut Rng, checked: &mut u64) -> Result<(), String> {
    let before = g.definitions().clone();
    let v = rng.pick(&[json!({"a": [1, null]}), json!([true, "x"]), json!({})]).clone();
    let doc = if rng.chance(1, 2) { g.root_schema_for_value(&v) } else { g.clone().into_root_schema_for_value(&v) };
    let doc = doc.map_err(|e| format!("value root: {e}"))?.to_value();
    if *g.definitions() != before {
        return Err("value root: changed the generator's definitions".into());
    }
    for (name, d) in &before {
        let id = d.get("x-id").and_then(Value::as_u64);
        let at = doc.pointer(&format!("{ptr}/{}", name.replace('~', "~0").replace('/', "~1")));
        match (at, id) {
            (None, _) => return Err(format!("value root: definition {name:?} missing")),
            (Some(at), Some(id)) => w.faithful(at, id as usize, &doc, checked).map_err(|e| format!("value root: {e}"))?,
            _ => {}
        }
    }
    Ok(())
}

fn request(w: &World, g: &mut SchemaGenerator, sh: &mut Shadow, i: usize, inline: bool, ptr: &str, checked: &mut u64) -> Result<(), String> {
    let s = OPS[i].sub(g).to_value();
    let doc = mount(&s, g.definitions(), ptr);
    w.faithful(&s, i, &doc, checked).map_err(|e| format!("subschema: {e}"))?;
    if !w.nodes[i].inline && !inline {
        let Some(r) = s.get("$ref").and_then(Value::as_str).filter(|_| s.as_object().unwrap().len() == 1) else {
            return Err(format!("type {i} isn't a plain reference: {}", short(&s)));
        };
        if let Some(old) = sh.refs.get(&i) {
            if old != r {
                return Err(format!("type {i} was {old} and is {r} now"));
            }
        }
        let mut toks = walk::ref_tokens(r).ok_or("not a reference into this document")?;
        let name = toks.pop().unwrap_or_default();
        let want: Vec<String> = ptr.split('/').skip(1).map(String::from).collect();
        if toks != want {
            return Err(format!("reference {r} is not below {ptr}"));
        }
        if !g.definitions().contains_key(&name) {
            return Err(format!("definition {name:?} missing"));
        }
        if let Some(t) = sh.names.insert(name.clone(), i) {
            if t != i {
                return Err(format!("types {t} and {i} share definition name {name:?}"));
            }
        }
        if !name.starts_with(&w.nodes[i].name) {
            return Err(format!("definition name {name:?} isn't derived from {:?}", w.nodes[i].name));
        }
        sh.refs.insert(i, r.to_string());
    }
    Ok(())
}

/// C10 over worlds: the same history twice gives identical bytes; a history-laden root document
/// equals the fresh one up to names and extra definitions.
fn titled(n: usize) -> Titled {
    Titled { a: n as u8, b: if n % 3 == 0 { vec![] } else { vec![None, Some(titled(n / 2))] } }
}

#[derive(serde::Serialize)]
struct Titled {
    a: u8,
    b: Vec<Option<Titled>>,
}

pub fn c10(rep: &mut Report, rng: &mut Rng) {
    for _ in 0..Report::scale(600, 8000) {
        let world = Rc::new(random_world(rng));
        set_world(&world);
        let (settings, label) = random_settings(rng);
        let ptr = ptr_of(&settings);
        let inline = settings.inline_subschemas;
        let i = rng.below(NODES);
        let seed = rng.next();
        let run = |threaded: bool| -> Result<(Vec<String>, Value, Vec<String>, Value), String> {
            let settings = settings.clone();
            let w = (*world).clone();
            let f = move || {
                set_world(&Rc::new(w));
                let mut r = Rng::new(seed);
                let mut g = settings.into_generator();
                let mut out = vec![];
                let mut log = vec![];
                for _ in 0..r.range(1, 6) {
                    let j = r.below(NODES);
                    let op = r.below(5);
                    log.push(format!("{op}({j})"));
                    match op {
                        0 => out.push(OPS[j].sub(&mut g).to_value().to_string()),
                        1 => out.push((OPS[j].root)(&mut g).to_value().to_string()),
                        2 => g = g.clone(),
                        3 => out.push(g.root_schema_for_value(&titled(j)).unwrap().to_value().to_string()),
                        _ => {
                            g.take_definitions(r.chance(1, 2));
                        }
                    }
                    out.push(serde_json::to_string(g.definitions()).unwrap());
                }
                let inferred = if r.chance(1, 2) { g.root_schema_for_value(&titled(i)) } else { g.clone().into_root_schema_for_value(&titled(i)) };
                let inferred = inferred.unwrap().to_value();
                let v = if r.chance(1, 2) { (OPS[i].root)(&mut g).to_value() } else { (OPS[i].into_root)(g).to_value() };
                (out, v, log, inferred)
            };
            if threaded {
                std::thread::Builder::new().stack_size(16 << 20).spawn(f).unwrap().join().map_err(|_| "panic".to_string())
            } else {
                guarded(f)
            }
        };
        let (a, b) = (run(false), run(rng.chance(1, 20)));
        set_world(&world);
        let fresh = guarded(|| (OPS[i].into_root)(settings.clone().into_generator()).to_value());
        match (a, b, fresh) {
            (Ok(a), Ok(b), Ok(fresh)) => {
                let alone = settings.clone().into_generator().into_root_schema_for_value(&titled(i)).unwrap().to_value();
                if let Some(d) = crate::corpus::doc_difference(&alone, &a.3, &ptr) {
                    rep.violation(
                        "world-history-value",
                        &format!("the schema inferred from a value depends on history {:?} ({label}): {d}", a.2),
                        json!({"world": format!("{world:?}"), "fresh": alone, "after": a.3}),
                    );
                }
                rep.case(&format!("{world:?}{label}{:?}", a.2), a.2.len() > 1);
                if a.0 != b.0 || a.1.to_string() != b.1.to_string() || a.3.to_string() != b.3.to_string() {
                    rep.violation("world-nondeterministic", &format!("the same history {:?} gave two results ({label})", a.2), json!({"world": format!("{world:?}")}));
                }
                let d = crate::corpus::doc_difference(&fresh, &a.1, &ptr);
                if let Some(d) = d {
                    if inline {
                        // where recursion is cut may differ when inlining
                        let mut n = 0;
                        if let Err(e) = world.faithful(&a.1, i, &a.1, &mut n) {
                            rep.violation("world-history", &format!("{label} {:?}: {e}", a.2), json!({"world": format!("{world:?}"), "doc": a.1}));
                        }
                    } else {
                        rep.violation(
                            "world-history",
                            &format!("root document of type {i} depends on history {:?} ({label}): {d}", a.2),
                            json!({"world": format!("{world:?}"), "fresh": fresh, "after": a.1}),
                        );
                    }
                }
                rep.sample("world-history", || json!({"history": a.2, "root_type": i, "settings": label}));
            }
            (a, b, f) => rep.violation(
                "world-panic",
                &format!("panicked: {:?} {:?} {:?}", a.err(), b.err(), f.err()),
                json!({"world": format!("{world:?}")}),
            ),
        }
    }
}

/// Every reference a generator handed out resolves in its definitions until the caller removes
/// them, whatever is requested in between.
fn handed_out(mut g: SchemaGenerator, ptr: &str, rng: &mut Rng, log: &mut Vec<String>, rep: &mut Report) -> Result<(), String> {
    let mut refs: Vec<String> = vec![];
    for _ in 0..rng.range(2, 7) {
        let i = rng.below(NODES);
        let op = rng.weighted(&[10, 3, 3, 3, 2, 2]);
        log.push(format!("{}({i})", ["sub", "root", "value_root", "clone", "take", "into_root(clone)"][op]));
        let mut docs = vec![];
        match op {
            0 => {
                let s = OPS[i].sub(&mut g).to_value();
                walk::walk(&s, &mut |_, x| refs.extend(x.get("$ref").and_then(Value::as_str).map(String::from)));
            }
            1 => docs.push((OPS[i].root)(&mut g).to_value()),
            2 => docs.push(g.root_schema_for_value(&json!({"k": [i]})).map_err(|e| e.to_string())?.to_value()),
            3 => g = g.clone(),
            4 => {
                let all = g.definitions().clone();
                let taken = g.take_definitions(false);
                if taken != all {
                    return Err("taken definitions differ from those lent".into());
                }
                refs.clear();
            }
            _ => {
                docs.push((OPS[i].into_root)(g.clone()).to_value());
                docs.push(g.clone().into_root_schema_for_value(&json!([i])).map_err(|e| e.to_string())?.to_value());
            }
        }
        for d in docs {
            if let Some(p) = dialect::ref_problems(&d, ptr).1.first() {
                return Err(format!("root document: {p}"));
            }
        }
        let lent = g.definitions().clone();
        if *g.definitions_mut() != lent {
            return Err("definitions and definitions_mut differ".into());
        }
        // (a caller inlines or embeds what it was given, so `#` can't be resolved here)
        let subs: Vec<Value> = refs.iter().filter(|r| *r != "#").map(|r| json!({"$ref": r})).collect();
        let doc = mount(&json!({"anyOf": subs}), g.definitions(), ptr);
        let (n, ps) = dialect::ref_problems(&doc, ptr);
        rep.add("references-handed-out", n as u64);
        if let Some(p) = ps.first() {
            return Err(p.clone());
        }
    }
    Ok(())
}

/// C06 over worlds (names with every kind of character, more definitions paths).
pub fn c06(rep: &mut Report, rng: &mut Rng) {
    for _ in 0..Report::scale(1500, 20000) {
        let mut w = random_world(rng);
        for n in w.nodes.iter_mut() {
            if rng.chance(1, 3) {
                n.name = (0..rng.range(1, 4)).map(|_| random_char(rng)).collect();
            }
        }
        let world = Rc::new(w);
        set_world(&world);
        let (mut settings, _) = random_settings(rng);
        if rng.chance(1, 3) {
            settings.definitions_path = random_path(rng).into();
        } else if rng.chance(1, 4) {
            settings.definitions_path = rng.pick(&["", "#", "/", "#/", "/a/b/c/d", "/x~1y", "/x~0y/"]).to_string().into();
        }
        let raw = settings.definitions_path.to_string();
        let i = rng.below(NODES);
        // root-level definitions share a namespace with the keywords of the root
        let at_root = raw.trim_matches('#').trim_matches('/').is_empty();
        if at_root && world.nodes.iter().any(|n| ["", "$defs", "properties", "type", "title"].contains(&n.name.as_str())) {
            continue;
        }
        let ptr = ptr_of(&settings);
        if !at_root {
            let mut log = vec![];
            let r = guarded(|| handed_out(settings.clone().into_generator(), &ptr, rng, &mut log, rep)).unwrap_or_else(|e| Err(format!("panicked: {e}")));
            if let Err(e) = r {
                rep.violation("world-dangling-ref", &format!("definitions path {raw:?}, history {log:?}: {e}"), json!({"world": format!("{world:?}"), "history": log}));
            }
        }
        let doc = match guarded(|| (OPS[i].into_root)(settings.into_generator()).to_value()) {
            Ok(d) => d,
            Err(e) => {
                rep.violation("world-panic", &format!("panicked: {e}"), json!({"world": format!("{world:?}")}));
                continue;
            }
        };
        let (n, ps) = dialect::ref_problems(&doc, &ptr);
        rep.case(&format!("{world:?}{raw}{i}"), n > 0);
        rep.add("references", n as u64);
        for p in ps {
            rep.violation("world-bad-ref", &format!("definitions path {raw:?}: {p}"), json!({"world": format!("{world:?}"), "doc": doc}));
        }
        let mut c = 0;
        if let Err(e) = world.faithful(&doc, i, &doc, &mut c) {
            rep.violation("world-wrong-ref", &format!("definitions path {raw:?}: {e}"), json!({"world": format!("{world:?}"), "doc": doc}));
        }
    }
}

pub fn random_char(r: &mut Rng) -> char {
    match r.below(6) {
        0 => *r.pick(&['/', '~', '%', '#', '?', '"', '\\', ' ', '<', '>', '{', '}', '|', '^', '`', '[', ']', '&', '+', '=', '$', '.', ':', '@', '!', '\'']),
        1 => char::from(r.below(0x20) as u8),
        2 => char::from(0x7f),
        3 => *r.pick(&['é', 'ß', '日', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{301}', '\u{feff}']),
        4 => char::from(b'0' + r.below(10) as u8),
        _ => char::from(b'a' + r.below(26) as u8),
    }
}

// ---------------------------------------------------------------- C22

#[derive(Debug, Clone)]
pub struct Tag {
    pub id: u64,
    pub calls: u64,
}
impl schemars::transform::Transform for Tag {
    fn transform(&mut self, s: &mut Schema) {
        self.calls += 1;
        let seen = s.as_value().pointer("/$defs").and_then(Value::as_object).map_or(0, |m| m.len());
        let n = s.as_object().map_or(0, |o| o.len());
        let o = s.ensure_object();
        let t = o.entry("x-order").or_insert(json!([]));
        if let Some(a) = t.as_array_mut() {
            a.push(json!({"id": self.id, "defs": seen, "keys": n > 0}));
        }
    }
}
/// Another transform type, to see that inspection tells types apart.
#[derive(Debug, Clone, PartialEq)]
pub struct Other(pub u64);
impl schemars::transform::Transform for Other {
    fn transform(&mut self, s: &mut Schema) {
        let o = s.ensure_object();
        let t = o.entry("x-order").or_insert(json!([]));
        if let Some(a) = t.as_array_mut() {
            a.push(json!({"id": self.0, "other": true}));
        }
    }
}
/// A recursive transform counting its visits.
#[derive(Debug, Clone)]
pub struct Deep(pub u64);
impl schemars::transform::Transform for Deep {
    fn transform(&mut self, s: &mut Schema) {
        let o = s.ensure_object();
        let n = o.get("x-deep").and_then(Value::as_u64).unwrap_or(0);
        o.insert("x-deep".into(), json!(n + 1));
        schemars::transform::transform_subschemas(self, s);
    }
}

/// A definition that is a boolean schema.
struct Anything;
impl JsonSchema for Anything {
    fn schema_name() -> Cow<'static, str> {
        "Anything at all".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        true.into()
    }
}

fn has_marks(v: &Value) -> bool {
    let mut r = false;
    walk::walk_with(v, "/$defs", &mut |_, x| r |= x.get("x-order").is_some() || x.get("x-deep").is_some());
    r
}

pub fn c22(rep: &mut Report, rng: &mut Rng) {
    for h in 0..Report::scale(2000, 30000) {
        let world = Rc::new(random_world(rng));
        set_world(&world);
        let mut settings = match rng.below(3) {
            0 => SchemaSettings::draft2019_09(),
            _ => SchemaSettings::draft2020_12(),
        };
        settings.inline_subschemas = rng.chance(1, 4);
        // configured order: ids 1..k, a mixture of kinds, registered through both routes
        let k = rng.below(5) as u64;
        let mut want: Vec<(u64, bool)> = vec![];
        let mut deep = 0;
        for id in 1..=k {
            match rng.below(5) {
                0 => {
                    settings = settings.with_transform(Other(id));
                    want.push((id, true));
                }
                1 => {
                    settings.transforms.push(Box::new(Other(id)));
                    want.push((id, true));
                }
                2 => {
                    settings = settings.with_transform(Deep(id));
                    deep += 1;
                }
                _ => {
                    settings = settings.with_transform(Tag { id, calls: 0 });
                    want.push((id, false));
                }
            }
        }
        let mut calls = 0u64; // how often the generator's own transforms ran
        let mut log = vec![];
        let r = guarded(|| -> Result<(), String> {
            let mut g = if rng.chance(1, 3) { SchemaGenerator::from(settings.clone()) } else { settings.clone().into_generator() };
            for _ in 0..rng.range(1, 6) {
                let i = rng.below(NODES);
                let op = rng.below(9);
                log.push(format!("{}({i})", ["root", "into_root(clone)", "value", "into_value(clone)", "sub", "take(false)", "take(true)", "clone", "boolean sub"][op]));
                let root_check = |doc: &Value, n_defs: Option<usize>| -> Result<(), String> {
                    let empty = vec![];
                    let got = doc.get("x-order").and_then(Value::as_array).unwrap_or(&empty);
                    let ids: Vec<(u64, bool)> = got.iter().map(|x| (x["id"].as_u64().unwrap(), x.get("other").is_some())).collect();
                    if ids != want {
                        return Err(format!("transforms {ids:?} applied instead of {want:?}"));
                    }
                    if let Some(n) = n_defs {
                        for x in got.iter().filter(|x| x.get("defs").is_some()) {
                            if x["defs"] != json!(n) {
                                return Err(format!("a transform saw {} definitions instead of {n}", x["defs"]));
                            }
                        }
                    }
                    let mut bad = None;
                    walk::walk_with(doc, "/$defs", &mut |p, s| {
                        let d = s.get("x-deep").and_then(Value::as_u64).unwrap_or(0);
                        if d != deep && s.is_object() {
                            bad = Some(format!("{p}: {d} recursive transforms instead of {deep}"));
                        }
                        if !p.is_empty() && s.get("x-order").is_some() {
                            bad = Some(format!("{p}: non-root schema transformed"));
                        }
                    });
                    bad.map_or(Ok(()), Err)
                };
                let defs_len = |v: &Value| v.get("$defs").and_then(Value::as_object).map_or(0, |m| m.len());
                let val = json!({"a": [1, "x", null], "b": {"c": 1.5}});
                match op {
                    0 => {
                        let d = (OPS[i].root)(&mut g).to_value();
                        calls += 1;
                        root_check(&d, Some(defs_len(&d)))?;
                    }
                    1 => {
                        let d = (OPS[i].into_root)(g.clone()).to_value();
                        root_check(&d, Some(defs_len(&d)))?;
                    }
                    2 => {
                        let d = g.root_schema_for_value(&val).unwrap().to_value();
                        calls += 1;
                        root_check(&d, Some(defs_len(&d)))?;
                    }
                    3 => {
                        let d = g.clone().into_root_schema_for_value(&val).unwrap().to_value();
                        root_check(&d, Some(defs_len(&d)))?;
                    }
                    4 => {
                        let s = OPS[i].sub(&mut g).to_value();
                        if has_marks(&s) {
                            return Err("subschema was transformed".into());
                        }
                    }
                    5 => {
                        if has_marks(&json!({"$defs": g.take_definitions(false)})) {
                            return Err("definitions taken without transforms were transformed".into());
                        }
                    }
                    6 => {
                        let n = g.definitions().len() as u64;
                        let d = g.take_definitions(true);
                        calls += n;
                        for (name, s) in &d {
                            let got: Vec<u64> =
                                s.get("x-order").and_then(Value::as_array).into_iter().flatten().map(|x| x["id"].as_u64().unwrap()).collect();
                            let w: Vec<u64> = want.iter().map(|x| x.0).collect();
                            if got != w {
                                return Err(format!("definition {name:?}: transforms {got:?} applied instead of {w:?}"));
                            }
                            let mut bad = None;
                            if deep > 0 && !s.is_object() {
                                bad = Some(format!("definition {name:?}: recursive transforms not applied to {s}"));
                            }
                            walk::walk(s, &mut |p, s| {
                                if s.get("x-deep").and_then(Value::as_u64).unwrap_or(0) != deep && s.is_object() {
                                    bad = Some(format!("definition {name:?}{p}: recursive transforms not applied {deep} times"));
                                }
                            });
                            if let Some(b) = bad {
                                return Err(b);
                            }
                        }
                    }
                    8 => {
                        g.subschema_for::<Anything>();
                    }
                    _ => g = g.clone(),
                }
                if has_marks(&json!({"$defs": g.definitions()})) {
                    return Err("the generator's own definitions were transformed".into());
                }
                // state and type of every transform are kept (also by the clones)
                let ts: Vec<(u64, bool)> = g
                    .settings()
                    .transforms
                    .iter()
                    .filter_map(|t| match (t.downcast_ref::<Tag>(), t.downcast_ref::<Other>()) {
                        (Some(t), None) => Some((t.id, false)),
                        (None, Some(o)) => Some((o.0, true)),
                        _ => None,
                    })
                    .collect();
                if ts != want {
                    return Err(format!("settings list transforms {ts:?} instead of {want:?}"));
                }
                for t in g.transforms_mut() {
                    if t.is::<Tag>() == t.is::<Other>() && !t.is::<Deep>() && t.is::<Tag>() {
                        return Err("is() confuses types".into());
                    }
                    if let Some(t) = t.downcast_mut::<Tag>() {
                        if t.calls != calls {
                            return Err(format!("transform {} ran {} times instead of {calls}", t.id, t.calls));
                        }
                    }
                }
            }
            // consuming downcast
            let s = g.settings().clone();
            for t in s.transforms {
                let was = t.is::<Tag>();
                match t.downcast::<Tag>() {
                    Ok(t) if was && t.calls == calls => {}
                    Err(t) if !was && (t.is::<Other>() || t.is::<Deep>() || !t.is::<Tag>()) => {}
                    _ => return Err("downcast lost the transform".into()),
                }
            }
            Ok(())
        });
        let r = r.unwrap_or_else(|e| Err(format!("panicked: {e}")));
        rep.case(&format!("{log:?}{want:?}{world:?}"), !want.is_empty() || deep > 0);
        rep.add("transform-runs", calls * (want.len() as u64 + deep));
        if let Err(e) = r {
            let kind: String = e.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(40).collect();
            rep.violation(&format!("transforms:{}", kind.trim().replace(' ', "-")), &format!("{log:?} with {want:?}: {e}"), json!({"world": format!("{world:?}"), "history": log}));
        }
        if h < 2 {
            rep.sample("transforms", || json!({"configured": want, "recursive": deep, "history": log}));
        }
    }
}

// ---------------------------------------------------------------- C14, generator side

/// References created for types with arbitrary names lead to the definition of that type, by
/// `Schema::pointer` and by the independent resolver.
pub fn names(rep: &mut Report, rng: &mut Rng) {
    for _ in 0..Report::scale(1500, 25000) {
        let nodes = (0..NODES)
            .map(|i| Node {
                name: match rng.below(4) {
                    0 => rng.pick(NAMES).to_string(),
                    _ => (0..rng.range(1, 6)).map(|_| random_char(rng)).collect(),
                },
                id: format!("m::{i}"),
                inline: false,
                alias: None,
                edges: vec![],
            })
            .collect();
        let world = Rc::new(World { nodes });
        set_world(&world);
        let mut settings = rng.pick(&[Dia::D20, Dia::D19, Dia::D7]).settings();
        settings.transforms.clear();
        let path = if rng.chance(1, 2) {
            random_path(rng)
        } else {
            rng.pick(&["/$defs", "/definitions", "#/$defs/", "/components/schemas", "/a/b/c", "/x~1y", "/x~0y/z", "#/x~01"]).to_string()
        };
        settings.definitions_path = path.clone().into();
        let ptr = ptr_of(&settings);
        let dbg = format!("{path} {:?}", world.nodes.iter().map(|n| &n.name).collect::<Vec<_>>());
        rep.case(&dbg, true);
        let mut g = settings.into_generator();
        let picks: Vec<usize> = (0..rng.range(1, 6)).map(|_| rng.below(NODES)).collect();
        let mut refs = vec![];
        for &i in &picks {
            let s = match rng.below(4) {
                0 => (OPS[i].vec)(&mut g).to_value().get("items").cloned(),
                1 => (OPS[i].map)(&mut g).to_value().get("additionalProperties").cloned(),
                2 => Some((OPS[i].boxed)(&mut g).to_value()),
                _ => Some(OPS[i].sub(&mut g).to_value()),
            };
            match s.as_ref().and_then(|s| s.get("$ref")).and_then(Value::as_str) {
                Some(x) => refs.push((i, x.to_string())),
                None => rep.violation("names-no-ref", &format!("type {i} of {dbg}: {s:?}"), json!(dbg)),
            }
        }
        let defs = g.definitions().clone();
        let doc = mount(&json!(true), &defs, &ptr);
        let root = Schema::try_from(doc.clone()).unwrap();
        for (i, x) in refs {
            rep.count("references_from_names");
            let want = |v: Option<&Value>| v.and_then(|v| v.get("x-id")).and_then(Value::as_u64) == Some(i as u64);
            if !x.starts_with('#') || !walk::valid_fragment(&x[1..]) {
                rep.violation("names-invalid-fragment", &format!("{x:?} for type {i} of {dbg}"), json!(dbg));
            }
            if !want(root.pointer(&x)) {
                rep.violation("names-pointer", &format!("pointer({x:?}) is {:?} for type {i} of {dbg}", root.pointer(&x)), json!(dbg));
            }
            let mut m = root.clone();
            if !want(m.pointer_mut(&x).map(|v| &*v)) {
                rep.violation("names-pointer-mut", &format!("pointer_mut({x:?}) for type {i} of {dbg}"), json!(dbg));
            }
            if !want(walk::resolve(&doc, &x)) {
                rep.violation("names-resolve", &format!("{x:?} does not lead to type {i} of {dbg}"), json!(dbg));
            }
        }
    }
}
