//! C24: enums with an integer representation; serde_repr is the judge.
use crate::corpus::Cfg;
use crate::model::C;
use crate::{guarded, Report, Rng};
use schemars::generate::SchemaGenerator;
use schemars::{JsonSchema, Schema};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub struct Ops {
    label: &'static str,
    repr: &'static str,
    root: fn(SchemaGenerator) -> Schema,
    holder: fn(SchemaGenerator) -> Schema,
    written: Box<dyn Fn() -> Vec<Result<Value, String>> + Send>,
    declared: &'static [i128],
    reads: fn(&Value) -> bool,
    holder_reads: fn(&Value) -> bool,
}
impl Ops {
    pub fn new<E: JsonSchema + Serialize + DeserializeOwned, H: JsonSchema + DeserializeOwned>(
        label: &'static str,
        repr: &'static str,
        all: fn() -> Vec<E>,
        declared: &'static [i128],
    ) -> Ops where E: 'static {
        Ops {
            label,
            repr,
            root: |g| g.into_root_schema_for::<E>(),
            holder: |g| g.into_root_schema_for::<H>(),
            written: Box::new(move || all().iter().map(|e| serde_json::to_value(e).map_err(|e| e.to_string())).collect()),
            declared,
            reads: |v| E::deserialize(v.clone()).is_ok(),
            holder_reads: |v| H::deserialize(v.clone()).is_ok(),
        }
    }
}

fn int(n: i128) -> Option<Value> {
    i64::try_from(n).map(Value::from).or_else(|_| u64::try_from(n).map(Value::from)).ok()
}

pub fn main(ops: Vec<Ops>) {
    crate::report::hook();
    let prop = std::env::var("VH_PROP").expect("VH_PROP");
    let prog = std::env::args().next().unwrap().rsplit('/').next().unwrap().to_string();
    let mut rep = Report::new(&prop);
    let mut rng = Rng::from_env(&prog);
    for o in &ops {
        one(&mut rep, &mut rng, &prog, o);
    }
    rep.finish();
}

fn one(rep: &mut Report, rng: &mut Rng, prog: &str, o: &Ops) {
    rep.count(&format!("enums-{}", o.repr));
    rep.add("variants", o.declared.len() as u64);
    let mut written = Vec::new();
    for w in (o.written)() {
        match w {
            Ok(v) => written.push(v),
            Err(e) => return rep.inconclusive(format!("{prog} {}: {e}", o.label)),
        }
    }
    let mut sorted = written.clone();
    sorted.sort_by_key(|v| v.as_i64().map(i128::from).or(v.as_u64().map(i128::from)));
    if sorted != o.declared.iter().map(|n| int(*n).unwrap()).collect::<Vec<_>>() {
        rep.inconclusive(format!("{prog} {}: serde_repr writes {sorted:?}, declared {:?}", o.label, o.declared));
    }
    // integers to judge
    let mut ints: Vec<i128> = vec![0, 1, -1, 2, 7, 10, 127, 128, 255, 256, -127, -128, -129, 32767, 32768, -32768, 65535, 65536];
    for b in [31, 32, 53, 63, 64] {
        ints.extend([1i128 << b, (1i128 << b) - 1, (1i128 << b) + 1, -(1i128 << b), -(1i128 << b) - 1, -(1i128 << b) + 1]);
    }
    for d in o.declared {
        ints.extend([*d, d - 1, d + 1, -d, d ^ 0x80, d + 256, d - 256, d + 65536, d + (1 << 32), d - (1 << 32), d.wrapping_sub(1 << 64), d + (1 << 63)]);
    }
    for _ in 0..Report::scale(10, 60) {
        ints.push(rng.next() as i64 as i128 >> rng.below(64));
        ints.push(rng.below(260) as i128 - 130);
    }
    let mut docs: Vec<Value> = ints.into_iter().filter_map(int).collect();
    for d in o.declared {
        docs.extend([json!(d.to_string()), json!([int(*d)]), json!({"v": int(*d)})]);
        if d.abs() < 1 << 40 {
            docs.push(json!(*d as f64 + 0.5));
        }
    }
    docs.extend([json!(null), json!(true), json!(false), json!("V0"), json!("E0"), json!({"V0": null}), json!([]), json!({}), json!(0.5)]);
    for cfg in Cfg::all() {
        for c in [C::Ser, C::De] {
            let what = format!("{prog} {} ({}) under {}:{c:?}", o.label, o.repr, cfg.name());
            rep.breadcrumb(&what);
            let s = guarded(|| (o.root)(cfg.settings(c).into_generator()).to_value());
            let h = guarded(|| (o.holder)(cfg.settings(c).into_generator()).to_value());
            let (Ok(s), Ok(h)) = (s, h) else {
                rep.violation(&format!("repr-panics:{prog}:{}", o.label), &format!("{what}: schema generation panicked"), json!(null));
                continue;
            };
            let (v, hv) = match (crate::val::compile(&s, cfg.dia), crate::val::compile(&h, cfg.dia)) {
                (Ok(v), Ok(h)) => (v, h),
                (a, b) => {
                    rep.violation(&format!("repr-uncompilable:{prog}:{}", o.label), &format!("{what}: {:?} {:?}", a.err(), b.err()), json!([s, h]));
                    continue;
                }
            };
            for d in &docs {
                let want = (o.reads)(d);
                if want != written.contains(d) {
                    rep.inconclusive(format!("{what}: serde_repr reads but does not write {d}"));
                    continue;
                }
                rep.case(&format!("{what} {d}"), d.is_number());
                rep.count(if want { "accepted" } else { "refused" });
                if v.is_valid(d) != want {
                    rep.violation(
                        &format!("repr:{prog}:{}:{}", o.label, if want { "rejects" } else { "accepts" }),
                        &format!("{what}: serde_repr {} {d} but the schema says {}", if want { "reads" } else { "refuses" }, !want),
                        json!({"schema": s, "doc": d}),
                    );
                }
                // in the fields of another type
                let base = written[rng.below(written.len())].clone();
                let at = rng.below(4);
                let mut doc = json!({"e": base, "o": base, "v": [base, base], "s": base});
                match at {
                    0 => doc["e"] = d.clone(),
                    1 => doc["o"] = d.clone(),
                    2 => doc["v"][1] = d.clone(),
                    _ => doc["s"] = d.clone(),
                }
                let want = (o.holder_reads)(&doc);
                // `null` in an optional member that is never written as null
                if c == C::Ser && at == 3 && d.is_null() {
                    continue;
                }
                rep.case(&format!("{what} {doc}"), d.is_number());
                if hv.is_valid(&doc) != want {
                    rep.violation(
                        &format!("repr-field:{prog}:{}:{}", o.label, if want { "rejects" } else { "accepts" }),
                        &format!("{what}: serde says {want} for {doc} but the schema of the holder says {}", !want),
                        json!({"schema": h, "doc": doc}),
                    );
                }
            }
            rep.sample("repr", || json!({"enum": o.label, "repr": o.repr, "schema": s, "written": written}));
        }
    }
}
