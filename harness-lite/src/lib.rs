//! What generated programs need to write down their documents, without anything that fixes the
//! features schemars is built with (C23 builds this with several feature sets).
#[path = "../../harness/src/gen.rs"]
pub mod gen;
#[path = "../../harness/src/rng.rs"]
mod rng;
pub use rng::Rng;

pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub mod model {
    use serde_json::{json, Value};
    pub fn pool(r: &mut crate::Rng) -> Value {
        match r.below(6) {
            0 => Value::Null,
            1 => json!(1.5),
            2 => json!("a"),
            3 => json!([null, 1]),
            4 => json!({"zz": 1, "a": {"y": [], "b": 2}}),
            _ => json!(true),
        }
    }
}

pub mod corpus {
    use crate::gen::Arb;
    use crate::Rng;
    use schemars::generate::{Contract, SchemaGenerator, SchemaSettings};
    use schemars::{JsonSchema, Schema};
    use serde_json::{json, Map, Value};

    pub struct Ops {
        rust: &'static str,
        id: usize,
        root: fn(SchemaGenerator) -> Schema,
        sub: fn(&mut SchemaGenerator) -> Schema,
        val: Option<fn(SchemaGenerator, u64) -> Schema>,
    }
    impl Ops {
        pub fn new<T: JsonSchema + Arb + serde::Serialize>(id: usize, rust: &'static str) -> Ops {
            Ops {
                val: Some(|g, s| g.into_root_schema_for_value(&T::arb(&mut Rng::new(s))).unwrap_or_default()),
                ..Self::plain::<T>(id, rust)
            }
        }
        pub fn plain<T: JsonSchema + ?Sized>(id: usize, rust: &'static str) -> Ops {
            Ops { rust, id, root: |g| g.into_root_schema_for::<T>(), sub: |g| g.subschema_for::<T>(), val: None }
        }
    }

    pub fn settings() -> Vec<(&'static str, SchemaSettings)> {
        vec![
            ("draft07", SchemaSettings::draft07()),
            ("draft2019-09", SchemaSettings::draft2019_09()),
            ("draft2020-12", SchemaSettings::draft2020_12()),
            ("openapi3", SchemaSettings::openapi3()),
        ]
    }

    /// How many types are written out when this one is inlined, up to a limit.
    fn inline_size(defs: &Value, id: usize, stack: &mut Vec<usize>, n: &mut usize) {
        *n += 1;
        if *n > 600 || stack.contains(&id) {
            return;
        }
        fn refs(v: &Value, out: &mut Vec<usize>) {
            match v {
                Value::Array(a) => a.iter().for_each(|x| refs(x, out)),
                Value::Object(o) => {
                    if o.get("k") == Some(&json!("ref")) {
                        out.extend(o.get("id").and_then(Value::as_u64).map(|i| i as usize));
                    }
                    o.values().for_each(|x| refs(x, out));
                }
                _ => {}
            }
        }
        stack.push(id);
        let mut out = vec![];
        refs(&defs[id], &mut out);
        for j in out {
            inline_size(defs, j, stack, n);
        }
        stack.pop();
    }

    pub fn main(desc: &str, ops: Vec<Ops>) {
        let defs: Value = serde_json::from_str(desc).unwrap_or_default();
        std::panic::set_hook(Box::new(|_| {}));
        let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || dump(defs, ops)).unwrap();
        let out = h.join().unwrap();
        std::fs::write(std::env::var("VH_OUT").unwrap(), serde_json::to_string(&out).unwrap()).unwrap();
    }
    fn dump(defs: Value, ops: Vec<Ops>) -> Value {
        let mut docs = Map::new();
        let mut put = |k: String, f: &mut dyn FnMut() -> Schema| {
            let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let s = f();
                // as a document, as a plain value (in the map's own order)
                json!([serde_json::to_string(&s).unwrap(), serde_json::to_string(s.as_value()).unwrap()])
            }));
            docs.insert(k, v.unwrap_or(json!("panic")));
        };
        for (name, st) in settings() {
            for c in [Contract::Serialize, Contract::Deserialize] {
                let mut all = st.clone().with(|s| s.contract = c.clone()).into_generator();
                for o in &ops {
                    let what = format!("{}|{}|{:?}|", o.rust, name, c);
                    for inline in [false, true] {
                        if inline {
                            let mut n = 0;
                            inline_size(&defs, o.id, &mut vec![], &mut n);
                            if n > 600 {
                                continue;
                            }
                        }
                        let st = st.clone().with(|s| {
                            s.contract = c.clone();
                            s.inline_subschemas = inline;
                        });
                        put(format!("{what}root{}", if inline { "-inline" } else { "" }), &mut || (o.root)(st.clone().into_generator()));
                    }
                    put(format!("{what}sub"), &mut || (o.sub)(&mut all));
                    if let (Some(f), Contract::Serialize) = (o.val, &c) {
                        for k in 0..3u64 {
                            put(format!("{what}value{k}"), &mut || f(st.clone().into_generator(), k * 77 + o.id as u64));
                        }
                    }
                }
                put(format!("|{name}|{c:?}|definitions"), &mut || Schema::try_from(Value::Object(Map::from_iter([("$defs".to_string(), Value::Object(all.definitions().clone()))]))).unwrap());
            }
        }
        json!({"docs": docs, "sorted": Map::from_iter([("b".to_string(), json!(1)), ("a".to_string(), json!(1))]).keys().next().unwrap() == "a"})
    }
}

pub mod lib_types {
    pub mod prelude {
        pub use arrayvec07::{ArrayString, ArrayVec};
        pub use bigdecimal04::BigDecimal;
        pub use bytes1::{Bytes, BytesMut};
        pub use chrono04 as chrono;
        pub use either1::Either;
        pub use indexmap2::{IndexMap as RawIndexMap, IndexSet as RawIndexSet};
        pub use jiff02 as jiff;
        pub use rust_decimal1::Decimal;
        pub use semver1::Version;
        #[cfg(feature = "raw")]
        pub use serde_json::value::RawValue;
        pub use serde_json::{Map as JsonMap, Number, Value};
        pub use smallvec1::SmallVec;
        pub use std::borrow::Cow;
        pub use std::cell::{Cell, RefCell};
        pub use std::cmp::Reverse;
        pub use std::collections::*;
        pub use std::ffi::*;
        pub use std::marker::PhantomData;
        pub use std::net::*;
        pub use std::num::*;
        pub use std::ops::{Bound, Range, RangeInclusive};
        pub use std::path::{Path, PathBuf};
        pub use std::rc::Rc;
        pub use std::sync::atomic::*;
        pub use std::sync::{Arc, Mutex, RwLock};
        pub use std::time::{Duration, SystemTime};
        pub use url2::Url;
        pub use uuid1::Uuid;
        pub type SmolStr2 = smol_str02::SmolStr;
        pub type SmolStr3 = smol_str03::SmolStr;
        pub type IndexMap<K, V> = RawIndexMap<K, V, std::hash::RandomState>;
        pub type IndexSet<T> = RawIndexSet<T, std::hash::RandomState>;
        pub type RcWeak<T> = std::rc::Weak<T>;
        pub type ArcWeak<T> = std::sync::Weak<T>;
        pub mod ext {
            pub struct NoSchema;
        }
    }
    /// Stands in for the full harness's runner: only collects the types.
    #[derive(Default)]
    pub struct Run(Vec<crate::corpus::Ops>);
    impl Run {
        pub fn both<T: schemars::JsonSchema>(&mut self, name: &'static str) {
            self.0.push(crate::corpus::Ops::plain::<T>(0, name));
        }
        pub fn ser<T: schemars::JsonSchema>(&mut self, name: &'static str) {
            self.both::<T>(name)
        }
        pub fn decimal_exponents(&mut self) {}
        pub fn borrowed(&mut self) {}
    }
    pub fn main(go: fn(&mut Run)) {
        let mut r = Run::default();
        go(&mut r);
        crate::corpus::main("", r.0)
    }
}
