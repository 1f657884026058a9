//! C04: values of library types (and nestings of them) against the provided schema implementations.
//! Every type has a value generator and a model of its JSON form written from serde's (and the
//! crates') documentation; serde's own verdict is the second opinion.
use crate::model::{mutate, pool, C, V3};
use crate::val::{compile, Dia};
use crate::{guarded, Report, Rng};
use jsonschema::Validator;
use schemars::generate::Contract;
use schemars::JsonSchema;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::Cell as StdCell;
use V3::*;

/// Everything the generated programs name.
pub mod prelude {
    pub use super::{ext, Lib};
    pub use arrayvec07::{ArrayString, ArrayVec};
    pub use bigdecimal04::BigDecimal;
    pub use bytes1::{Bytes, BytesMut};
    pub use chrono04 as chrono;
    pub use either1::Either;
    pub use indexmap2::{IndexMap as RawIndexMap, IndexSet as RawIndexSet};
    pub use jiff02 as jiff;
    pub use rust_decimal1::Decimal;
    pub use semver1::Version;
    pub use serde_json::value::RawValue;
    pub use serde_json::{Map as JsonMap, Number, Value};
    pub use smallvec1::SmallVec;
    pub use std::borrow::Cow;
    pub use std::cell::{Cell, RefCell};
    pub use std::cmp::Reverse;
    pub use std::collections::*;
    pub use std::ffi::*;
    pub use std::marker::PhantomData;
    pub use std::net::*;
    pub use std::num::*;
    pub use std::ops::{Bound, Range, RangeInclusive};
    pub use std::path::{Path, PathBuf};
    pub use std::rc::Rc;
    pub use std::sync::atomic::*;
    pub use std::sync::{Arc, Mutex, RwLock};
    pub use std::time::{Duration, SystemTime};
    pub use url2::Url;
    pub use uuid1::Uuid;
    pub use super::{KeyDoc, KeyFree, KeyMany, KeyMixed, KeyNum, KeyOne, KeySigned, KeyThree, KeyThrough};
    pub type SmolStr2 = smol_str02::SmolStr;
    pub type SmolStr3 = smol_str03::SmolStr;
    pub type IndexMap<K, V> = RawIndexMap<K, V, std::hash::RandomState>;
    pub type IndexSet<T> = RawIndexSet<T, std::hash::RandomState>;
    pub type RcWeak<T> = std::rc::Weak<T>;
    pub type ArcWeak<T> = std::sync::Weak<T>;
}
use prelude::*;

thread_local!(static EXTREME: StdCell<bool> = const { StdCell::new(false) });
fn extreme() {
    EXTREME.with(|x| x.set(true));
}

// ------------------------------------------------------------------------------------ the model

#[derive(Clone, Debug)]
pub enum M {
    Any,
    Null,
    Bool,
    Num,
    Str,
    Char,
    Int { lo: i128, hi: i128, tight: bool, nz: bool },
    /// a string in some notation; the function knows which strings are certainly in it
    Fmt(fn(&str) -> V3, &'static [&'static str]),
    Opt(Box<M>),
    Seq(Box<M>),
    Set(Box<M>),
    Len(Box<M>, usize, usize),
    Tup(Vec<M>),
    Map(Box<M>, Box<M>),
    Alt(Vec<(&'static str, Option<M>)>),
    Obj(Vec<(&'static str, M)>),
    Con(Box<M>, Box<M>),
    Or(Vec<M>),
}
fn bx(m: M) -> Box<M> {
    Box::new(m)
}
fn yes(b: bool) -> V3 {
    if b { Yes } else { No }
}
impl M {
    pub fn accept(&self, v: &Value, c: C) -> V3 {
        match self {
            M::Any => Yes,
            M::Null => yes(v.is_null()),
            M::Bool => yes(v.is_boolean()),
            M::Num => yes(v.is_number()),
            M::Str => yes(v.is_string()),
            M::Char => yes(v.as_str().is_some_and(|s| s.chars().count() == 1)),
            M::Int { lo, hi, tight, nz } => {
                let n = match v {
                    Value::Number(n) => n.as_i64().map(i128::from).or(n.as_u64().map(i128::from)),
                    _ => return No,
                };
                match n {
                    Some(0) if *nz => No,
                    Some(x) if x >= *lo && x <= *hi => Yes,
                    Some(x) if *tight || (x < 0 && *lo >= 0) => No,
                    Some(_) => Unk,
                    None if v.as_f64().is_some_and(|f| f.fract() == 0.0) => Unk,
                    None => No,
                }
            }
            M::Fmt(f, _) => v.as_str().map_or(No, f),
            M::Opt(t) => {
                if v.is_null() { Yes } else { t.accept(v, c) }
            }
            M::Seq(t) => v.as_array().map_or(No, |a| a.iter().fold(Yes, |r, x| r.and(t.accept(x, c)))),
            M::Set(t) => v.as_array().map_or(No, |a| {
                let dup = a.iter().enumerate().any(|(i, x)| a[..i].contains(x));
                a.iter().fold(if dup { Unk } else { Yes }, |r, x| r.and(t.accept(x, c)))
            }),
            M::Len(t, lo, hi) => match v.as_array() {
                Some(a) if a.len() >= *lo && a.len() <= *hi => a.iter().fold(Yes, |r, x| r.and(t.accept(x, c))),
                _ => No,
            },
            M::Tup(ts) => match v.as_array() {
                Some(a) if a.len() == ts.len() => ts.iter().zip(a).fold(Yes, |r, (t, x)| r.and(t.accept(x, c))),
                _ => No,
            },
            M::Map(k, t) => v.as_object().map_or(No, |o| o.iter().fold(Yes, |r, (n, x)| r.and(k.accept_key(n, c)).and(t.accept(x, c)))),
            M::Alt(vs) => match v {
                Value::String(s) => match vs.iter().find(|x| x.0 == s) {
                    Some((_, None)) => Yes,
                    _ => No,
                },
                Value::Object(o) => {
                    let hit: Vec<_> = vs.iter().filter(|x| o.contains_key(x.0)).collect();
                    match hit[..] {
                        [] => No,
                        [(_, None)] => Unk,
                        [(n, Some(t))] => {
                            let r = t.accept(&o[*n], c);
                            if o.len() == 1 { r } else { r.and(Unk) }
                        }
                        _ => Unk,
                    }
                }
                _ => No,
            },
            M::Obj(fs) => v.as_object().map_or(No, |o| {
                let r = if o.len() > fs.len() || o.keys().any(|k| fs.iter().all(|f| f.0 != k)) { Unk } else { Yes };
                fs.iter().fold(r, |r, (k, t)| r.and(o.get(*k).map_or(No, |x| t.accept(x, c))))
            }),
            M::Con(s, d) => if c == C::Ser { s } else { d }.accept(v, c),
            M::Or(ts) => ts.iter().fold(No, |r, t| r.or(t.accept(v, c))),
        }
    }
    fn accept_key(&self, k: &str, c: C) -> V3 {
        match self {
            M::Int { lo, hi, .. } => {
                let body = k.strip_prefix('-').unwrap_or(k);
                if body.is_empty() || !body.bytes().all(|b| b.is_ascii_digit()) {
                    return No;
                }
                match k.parse::<i128>() {
                    Ok(x) if x.to_string() == k && x >= *lo && x <= *hi => Yes,
                    _ => Unk,
                }
            }
            M::Opt(t) => t.accept_key(k, c).or(Unk),
            M::Con(s, d) => if c == C::Ser { s } else { d }.accept_key(k, c),
            M::Bool => yes(k == "true" || k == "false").or(Unk),
            M::Alt(_) => self.accept(&json!(k), c),
            M::Or(ts) => ts.iter().fold(No, |r, t| r.or(t.accept_key(k, c))),
            _ => self.accept(&json!(k), c).or(Unk),
        }
    }
    /// A document in the modelled form.
    pub fn gen(&self, r: &mut Rng, c: C) -> Value {
        let n = if r.fuel > 0 { r.below(4) } else { 0 };
        r.fuel -= n as i32;
        match self {
            M::Any => pool(r),
            M::Null => Value::Null,
            M::Bool => json!(r.chance(1, 2)),
            M::Num => r.pick(&[json!(0), json!(-1), json!(1.5), json!(u64::MAX), json!(1e300), json!(i64::MIN)]).clone(),
            M::Str => json!(text(r)),
            M::Char => json!(char::make(r)),
            M::Int { lo, hi, nz, .. } => {
                let x = match r.below(4) {
                    0 => *lo,
                    1 => *hi,
                    2 => (*lo).max(0) + 1,
                    _ => lo + (r.next() as i128).rem_euclid(hi - lo + 1),
                };
                let x = if *nz && x == 0 { 1 } else { x };
                match (i64::try_from(x), u64::try_from(x)) {
                    (Ok(x), _) => json!(x),
                    (_, Ok(x)) => json!(x),
                    _ => json!(7),
                }
            }
            M::Fmt(_, ss) => json!(r.pick(ss)),
            M::Opt(t) => {
                if r.chance(1, 3) { Value::Null } else { t.gen(r, c) }
            }
            M::Seq(t) => (0..n).map(|_| t.gen(r, c)).collect(),
            M::Set(t) => {
                let mut a: Vec<Value> = vec![];
                for _ in 0..n {
                    let x = t.gen(r, c);
                    if !a.contains(&x) {
                        a.push(x);
                    }
                }
                a.into()
            }
            M::Len(t, lo, hi) => (0..r.range(*lo, (*hi).min(lo + 3))).map(|_| t.gen(r, c)).collect(),
            M::Tup(ts) => ts.iter().map(|t| t.gen(r, c)).collect(),
            M::Map(k, t) => Value::Object(
                (0..n)
                    .map(|_| {
                        let key = match k.gen(r, c) {
                            Value::String(s) => s,
                            x => x.to_string(),
                        };
                        (key, t.gen(r, c))
                    })
                    .collect(),
            ),
            M::Alt(vs) => match r.pick(vs) {
                (n, None) => json!(n),
                (n, Some(t)) => json!({*n: t.gen(r, c)}),
            },
            M::Obj(fs) => Value::Object(fs.iter().map(|(k, t)| (k.to_string(), t.gen(r, c))).collect()),
            M::Con(s, d) => if c == C::Ser { s } else { d }.gen(r, c),
            M::Or(ts) => r.pick(ts).gen(r, c),
        }
    }
    fn words(&self, out: &mut Vec<String>) {
        match self {
            M::Alt(vs) => {
                for (n, t) in vs {
                    out.push(n.to_string());
                    if let Some(t) = t {
                        t.words(out)
                    }
                }
            }
            M::Obj(fs) => {
                for (n, t) in fs {
                    out.push(n.to_string());
                    t.words(out)
                }
            }
            M::Opt(t) | M::Seq(t) | M::Set(t) | M::Len(t, ..) => t.words(out),
            M::Map(k, t) => {
                out.extend(["-1", "0", "+1", "1.5", "", "a1", "1a", "007", "x", "255", "256", "true"].map(String::from));
                k.words(out);
                t.words(out)
            }
            M::Tup(ts) | M::Or(ts) => ts.iter().for_each(|t| t.words(out)),
            M::Con(a, b) => {
                a.words(out);
                b.words(out)
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------- values of types

pub trait Lib: Serialize + JsonSchema {
    fn make(r: &mut Rng) -> Self;
    fn model() -> M;
}
fn text(r: &mut Rng) -> String {
    (0..r.below(4)).map(|_| char::make(r)).collect()
}
fn few(r: &mut Rng, max: usize) -> usize {
    if r.fuel <= 0 {
        return 0;
    }
    let n = r.below(4).min(max);
    r.fuel -= n as i32;
    n
}
macro_rules! ints { ($($t:ident $tight:literal,)*) => {$(
    impl Lib for $t {
        fn make(r: &mut Rng) -> Self {
            match r.below(6) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => 0, 3 => 1, 4 => r.below(100) as $t, _ => r.next() as $t }
        }
        fn model() -> M { M::Int { lo: <$t>::MIN as i128, hi: (<$t>::MAX as i128), tight: $tight, nz: false } }
    }
)*} }
ints!(u8 true, u16 true, u32 false, u64 false, usize false, i8 true, i16 true, i32 false, i64 false, isize false,);
impl Lib for u128 {
    fn make(r: &mut Rng) -> Self { u64::make(r) as u128 }
    fn model() -> M { M::Int { lo: 0, hi: u64::MAX as i128, tight: false, nz: false } }
}
impl Lib for i128 {
    fn make(r: &mut Rng) -> Self { if r.chance(1, 2) { u64::make(r) as i128 } else { i64::make(r) as i128 } }
    fn model() -> M { M::Int { lo: i64::MIN as i128, hi: u64::MAX as i128, tight: false, nz: false } }
}
macro_rules! nonzero { ($($t:ident $p:ident,)*) => {$(
    impl Lib for $t {
        fn make(r: &mut Rng) -> Self { loop { if let Some(x) = $t::new($p::make(r)) { return x } } }
        fn model() -> M { match $p::model() { M::Int { lo, hi, tight, .. } => M::Int { lo, hi, tight, nz: true }, m => m } }
    }
)*} }
nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroUsize usize, NonZeroU128 u128,
    NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroIsize isize, NonZeroI128 i128,);
macro_rules! atomics { ($($t:ident $p:ident,)*) => {$(
    impl Lib for $t { fn make(r: &mut Rng) -> Self { $t::new($p::make(r)) } fn model() -> M { $p::model() } }
)*} }
atomics!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
    AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize, AtomicBool bool,);

macro_rules! leaves { ($($t:ty: $m:expr, |$r:ident| $e:expr;)*) => {$(
    impl Lib for $t { fn make($r: &mut Rng) -> Self { $e } fn model() -> M { $m } }
)*} }
fn any_str(_: &str) -> V3 { Unk }
fn sure(s: &str, ok: &[&str]) -> V3 { if ok.contains(&s) { Yes } else { Unk } }
macro_rules! fmt { ($($s:literal),*) => { M::Fmt(|s| sure(s, &[$($s),*]), &[$($s),*]) } }

fn decimal_text(s: &str) -> V3 {
    // plain decimal notation, optionally with an (unsigned) exponent
    let (m, e) = match s.split_once(['e', 'E']) { Some((m, e)) => (m, Some(e)), None => (s, None) };
    let d = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
    let m = m.strip_prefix('-').unwrap_or(m);
    let (i, f) = match m.split_once('.') { Some((i, f)) => (i, Some(f)), None => (m, None) };
    if d(i) && f.is_none_or(d) && e.is_none_or(d) { Yes } else { Unk }
}
fn plain_decimal(s: &str) -> V3 {
    if s.contains(['e', 'E']) { Unk } else { decimal_text(s) }
}
const DECS: &[&str] = &["0", "-0", "1", "1.50", "-12.00001", "123456789012345678", "0.0000001"];
fn decimal_model() -> M {
    M::Con(bx(M::Fmt(plain_decimal, DECS)), bx(M::Or(vec![M::Fmt(decimal_text, &["0", "1.5", "-2", "1e3", "2.5E2"]), M::Num])))
}
fn semver_text(r: &mut Rng) -> String {
    let n = |r: &mut Rng| r.pick(&["0", "1", "10", "18446744073709551615", "7"]).to_string();
    let mut s = format!("{}.{}.{}", n(r), n(r), n(r));
    if r.chance(1, 2) {
        s += r.pick(&["-alpha", "-0", "-a.b.1", "-1-2", "--", "-0a", "-rc.0-1.x", "-10.20", "-A--"]);
    }
    if r.chance(1, 2) {
        s += r.pick(&["+build", "+001", "+0.00.x-", "+-", "+20130313144700"]);
    }
    s
}
fn semver_ok(s: &str) -> V3 {
    if s.parse::<Version>().is_ok() { Yes } else { Unk }
}
fn year(r: &mut Rng, wide: bool) -> i32 {
    match r.below(6) {
        0 => 1970,
        1 => 0,
        2 => 9999,
        3 if wide => {
            extreme();
            *r.pick(&[-1, -9999, 10000, 99999, -262000, 262000])
        }
        4 => 1,
        _ => r.range(1900, 2100) as i32,
    }
}
fn naive_date(r: &mut Rng) -> chrono::NaiveDate {
    let y = year(r, true);
    chrono::NaiveDate::from_ymd_opt(y, r.range(1, 12) as u32, r.range(1, 28) as u32).unwrap()
}
fn naive_time(r: &mut Rng) -> chrono::NaiveTime {
    let ns = *r.pick(&[0, 0, 1, 999_999_999, 500_000_000, 1_000, 1_000_000]);
    let (s, ns) = if r.chance(1, 12) { extreme(); (59, 1_500_000_000) } else { (r.below(60) as u32, ns) };
    chrono::NaiveTime::from_hms_nano_opt(r.below(24) as u32, r.below(60) as u32, s, ns).unwrap()
}
fn naive_dt(r: &mut Rng) -> chrono::NaiveDateTime { naive_date(r).and_time(naive_time(r)) }
fn jdate(r: &mut Rng) -> jiff::civil::Date {
    let y = match r.below(5) { 0 => { extreme(); *r.pick(&[-9999i16, -1]) } 1 => 9999, 2 => 0, _ => r.range(1900, 2100) as i16 };
    jiff::civil::date(y, r.range(1, 12) as i8, r.range(1, 28) as i8)
}
fn jtime(r: &mut Rng) -> jiff::civil::Time {
    jiff::civil::time(r.below(24) as i8, r.below(60) as i8, r.below(60) as i8, *r.pick(&[0, 0, 1, 999_999_999, 120_000_000]))
}
fn duration(r: &mut Rng) -> Duration { Duration::new(*r.pick(&[0, 1, 59, 86400, u32::MAX as u64, i64::MAX as u64]), *r.pick(&[0, 1, 999_999_999])) }
fn uuid_ok(s: &str) -> V3 { sure(s, UUIDS) }
const UUIDS: &[&str] = &["00000000-0000-0000-0000-000000000000", "936da01f-9abd-4d9d-80c7-02af85c822a8", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF"];
fn ip4(r: &mut Rng) -> Ipv4Addr { Ipv4Addr::from(*r.pick(&[0u32, u32::MAX, 0x7f000001, 0x08080404])) }
fn ip6(r: &mut Rng) -> Ipv6Addr { Ipv6Addr::from(*r.pick(&[0u128, u128::MAX, 1, 0xffff_7f00_0001, 0x2001_0db8_0000_0000_0000_0000_0000_0001, 0xfe80_0000_0000_0000_0000_0001_0000_0000])) }

leaves! {
    bool: M::Bool, |r| r.chance(1, 2);
    (): M::Null, |_r| ();
    f32: M::Num, |r| *r.pick(&[0.0, -0.0, 1.5, -1.0, f32::MAX, f32::MIN_POSITIVE]);
    f64: M::Num, |r| *r.pick(&[0.0, -0.0, 1.5, -1.0, f64::MAX, f64::MIN_POSITIVE, 1e15, 0.1]);
    char: M::Char, |r| crate::world::random_char(r);
    String: M::Str, |r| text(r);
    Value: M::Any, |r| crate::model::pool(r);
    Number: M::Num, |r| match r.below(3) { 0 => Number::from(u64::make(r)), 1 => Number::from(i64::make(r)), _ => Number::from_f64(f64::make(r)).unwrap() };
    JsonMap<String, Value>: M::Map(bx(M::Str), bx(M::Any)), |r| { let n = few(r, 3); (0..n).map(|_| (text(r), pool(r))).collect() };
    Box<str>: M::Str, |r| text(r).into();
    Rc<str>: M::Str, |r| text(r).into();
    Arc<str>: M::Str, |r| text(r).into();
    Cow<'static, str>: M::Str, |r| text(r).into();
    &'static str: M::Str, |r| Box::leak(text(r).into_boxed_str());
    PathBuf: M::Str, |r| text(r).into();
    Box<Path>: M::Str, |r| PathBuf::make(r).into();
    &'static Path: M::Str, |r| Box::leak(PathBuf::make(r).into_boxed_path());
    OsString: M::Alt(vec![("Unix", Some(M::Seq(bx(u8::model())))), ("Windows", Some(M::Seq(bx(u16::model()))))]),
        |r| { use std::os::unix::ffi::OsStringExt; OsString::from_vec((0..r.below(4)).map(|_| r.next() as u8).collect()) };
    Box<OsStr>: OsString::model(), |r| OsString::make(r).into();
    CString: { let a = || M::Seq(bx(M::Int { lo: 1, hi: 255, tight: true, nz: true })); M::Con(bx(a()), bx(M::Or(vec![a(), M::Str]))) },
        |r| CString::new((0..r.below(4)).map(|_| r.range(1, 255) as u8).collect::<Vec<_>>()).unwrap();
    Box<CStr>: CString::model(), |r| CString::make(r).into();
    &'static CStr: CString::model(), |r| Box::leak(CString::make(r).into_boxed_c_str());
    Ipv4Addr: fmt!("127.0.0.1", "255.255.255.255"), |r| ip4(r);
    Ipv6Addr: fmt!("::1", "2001:db8::1"), |r| ip6(r);
    IpAddr: fmt!("127.0.0.1", "::"), |r| if r.chance(1, 2) { ip4(r).into() } else { ip6(r).into() };
    SocketAddrV4: fmt!("127.0.0.1:80"), |r| SocketAddrV4::new(ip4(r), u16::make(r));
    SocketAddrV6: fmt!("[::1]:80"), |r| SocketAddrV6::new(ip6(r), u16::make(r), 0, *r.pick(&[0, 0, 5]));
    SocketAddr: fmt!("127.0.0.1:80", "[::1]:0"), |r| if r.chance(1, 2) { SocketAddrV4::make(r).into() } else { SocketAddrV6::make(r).into() };
    Duration: M::Obj(vec![("secs", u64::model()), ("nanos", u32::model())]), |r| duration(r);
    SystemTime: M::Obj(vec![("secs_since_epoch", u64::model()), ("nanos_since_epoch", u32::model())]),
        |r| SystemTime::UNIX_EPOCH + Duration::new(*r.pick(&[0, 1, 1_700_000_000]), *r.pick(&[0, 1, 999_999_999]));
    Bytes: { let a = || M::Seq(bx(u8::model())); M::Con(bx(a()), bx(M::Or(vec![a(), M::Str]))) }, |r| (0..r.below(4)).map(|_| r.next() as u8).collect();
    BytesMut: Bytes::model(), |r| (0..r.below(4)).map(|_| r.next() as u8).collect();
    SmolStr2: M::Str, |r| text(r).into();
    SmolStr3: M::Str, |r| text(r).into();
    Decimal: decimal_model(), |r| match r.below(3) {
        0 => r.pick(DECS).parse().unwrap(),
        1 => *r.pick(&[Decimal::MIN, Decimal::MAX, Decimal::ZERO, Decimal::NEGATIVE_ONE]),
        _ => Decimal::from_i128_with_scale(i64::make(r) as i128, r.below(29) as u32),
    };
    BigDecimal: decimal_model(), |r| loop {
        use std::str::FromStr;
        let x = if r.chance(1, 2) { BigDecimal::from_str(r.pick(DECS)).unwrap() } else { BigDecimal::new(i64::make(r).into(), r.below(12) as i64 - 2) };
        // outputs with an exponent are the recorded finding, probed separately
        if !x.to_string().contains(['e', 'E']) { break x }
    };
    Version: M::Fmt(semver_ok, &["1.0.0", "0.0.0-a.b+c", "1.2.3-0a", "10.20.30+001"]), |r| semver_text(r).parse().unwrap();
    Url: fmt!("http://example.com/", "mailto:a@b", "file:///x"), |r| {
        let s = *r.pick(&["http://example.com/", "https://user:pw@ex.org:8080/a/b%20c?q=1&r=%7B#f", "mailto:a@b", "data:,x", "file:///etc/x", "http://[::1]/", "http://\u{e9}.com/\u{e9}"]);
        Url::parse(s).unwrap()
    };
    Uuid: M::Fmt(uuid_ok, UUIDS), |r| match r.below(3) { 0 => Uuid::nil(), 1 => Uuid::max(), _ => Uuid::from_u64_pair(r.next(), r.next()) };
    chrono::Weekday: M::Con(bx(weekday()), bx(M::Or(vec![weekday(), M::Fmt(any_str, &["Mon"])]))), |r| chrono::Weekday::try_from(r.below(7) as u8).unwrap();
    chrono::TimeDelta: M::Tup(vec![i64::model(), M::Int { lo: 0, hi: 999_999_999, tight: true, nz: false }]),
        |r| chrono::TimeDelta::new(*r.pick(&[0, -1, 1, 86400, -9_000_000_000, 9_000_000_000]), *r.pick(&[0, 1, 999_999_999])).unwrap();
    chrono::NaiveDate: fmt!("2020-01-31", "1970-01-01"), |r| naive_date(r);
    chrono::NaiveTime: fmt!("12:34:56", "00:00:00.000000001"), |r| naive_time(r);
    chrono::NaiveDateTime: fmt!("2020-01-31T12:34:56"), |r| naive_dt(r);
    chrono::DateTime<chrono::Utc>: fmt!("2020-01-31T12:34:56Z", "2020-01-31T12:34:56.5+01:00"), |r| naive_dt(r).and_utc();
    chrono::DateTime<chrono::FixedOffset>: fmt!("2020-01-31T12:34:56Z", "2020-01-31T12:34:56.5-11:30"), |r| {
        let o = chrono::FixedOffset::east_opt(*r.pick(&[0, 3600, -3600, 19800, -41400, 50400])).unwrap();
        naive_dt(r).and_utc().with_timezone(&o)
    };
    jiff::civil::Date: fmt!("2020-01-31"), |r| jdate(r);
    jiff::civil::Time: fmt!("12:34:56", "00:00:00.5"), |r| jtime(r);
    jiff::civil::DateTime: fmt!("2020-01-31T12:34:56"), |r| jdate(r).to_datetime(jtime(r));
    jiff::Timestamp: fmt!("2020-01-31T12:34:56Z"), |r| match r.below(4) {
        0 => { extreme(); *r.pick(&[jiff::Timestamp::MIN, jiff::Timestamp::MAX]) }
        1 => jiff::Timestamp::UNIX_EPOCH,
        _ => jiff::Timestamp::new(r.below(2_000_000_000) as i64, *r.pick(&[0, 1, 999_999_999])).unwrap(),
    };
    jiff::Zoned: fmt!("2020-01-31T12:34:56+00:00[UTC]"), |r| {
        let t = jiff::Timestamp::new(r.below(2_000_000_000) as i64, *r.pick(&[0, 5])).unwrap();
        t.to_zoned(jiff::tz::TimeZone::fixed(jiff::tz::offset(*r.pick(&[0, 1, -11, 14]))))
    };
    jiff::SignedDuration: fmt!("PT1H", "PT0S"), |r| {
        let s = *r.pick(&[0i64, 1, 59, 3600, 100_000]);
        if r.chance(1, 3) { extreme(); jiff::SignedDuration::new(-s - 1, -5) } else { jiff::SignedDuration::new(s, *r.pick(&[0, 1, 999_999_999])) }
    };
    jiff::Span: fmt!("P1Y2M3DT4H5M6S", "PT1M"), |r| {
        use jiff::ToSpan;
        let s = *r.pick(&[1.year().months(2).days(3).hours(4).minutes(5).seconds(6), 1.second(), 5.days(), 90.minutes(), 3.weeks()]);
        if r.chance(1, 4) { extreme(); -s } else { s }
    };
    Box<RawValue>: M::Any, |r| RawValue::from_string(pool(r).to_string()).unwrap();
}
// ---- derived types used as map keys
macro_rules! key_enums { ($($t:ident $($lenient:ident)? [$($v:ident = $n:literal $(($doc:literal))?,)*])*) => {$(
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, serde::Deserialize, JsonSchema)]
    pub enum $t { $(#[serde(rename = $n)] $(#[doc = $doc])? $v,)* }
    impl Lib for $t {
        fn make(r: &mut Rng) -> Self { *r.pick(&[$($t::$v,)*]) }
        fn model() -> M {
            let alternatives = M::Alt(vec![$(($n, None),)*]);
            // maps keyed by enums whose variants differ in metadata take any key
            $(let alternatives = { let _ = stringify!($lenient); M::Or(vec![alternatives, M::Fmt(any_str, &["a"])]) };)?
            alternatives
        }
    }
)*} }
key_enums! {
    KeyOne [A = "only",]
    KeyThree [A = "a", B = "0", C = "",]
    KeyMany [A = "a", B = "b", C = "c c", D = "~d", E = "e/e", F = "F", G = "\u{e9}", H = "\"h\"", I = "$ref", J = "-1", K = "k.*", L = "l", M = "type",
        N = "properties", O = "\u{1F600}", P = "p%41", Q = "q", R = "R", S = "s", T = "t", U = "u", V = "v", W = "w",]
    KeyDoc lenient [A = "a" ("documented"), B = "b", C = "c" ("also"), D = "d",]
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, serde::Deserialize, JsonSchema)]
pub struct KeyNum(pub i16);
impl Lib for KeyNum {
    fn make(r: &mut Rng) -> Self { KeyNum(i16::make(r)) }
    fn model() -> M { i16::model() }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, serde::Deserialize, JsonSchema)]
#[serde(transparent)]
pub struct KeyThrough { inner: Box<KeyMany> }
impl Lib for KeyThrough {
    fn make(r: &mut Rng) -> Self { KeyThrough { inner: Box::new(KeyMany::make(r)) } }
    fn model() -> M { KeyMany::model() }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, JsonSchema)]
#[serde(untagged)]
pub enum KeyMixed { Num(u8), Word(KeyMany), Id(Uuid) }
impl Lib for KeyMixed {
    fn make(r: &mut Rng) -> Self {
        match r.below(3) { 0 => KeyMixed::Num(u8::make(r)), 1 => KeyMixed::Word(KeyMany::make(r)), _ => KeyMixed::Id(Uuid::from_u64_pair(r.next(), 7)) }
    }
    fn model() -> M { M::Or(vec![u8::model(), KeyMany::model(), Uuid::model()]) }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, JsonSchema)]
pub enum KeySigned { Plain, #[serde(untagged)] Unsigned(KeyThrough), #[serde(untagged)] Signed(i8), #[serde(untagged)] Big(u32) }
impl Lib for KeySigned {
    fn make(r: &mut Rng) -> Self {
        match r.below(4) { 0 => KeySigned::Unsigned(KeyThrough::make(r)), 1 => KeySigned::Signed(i8::make(r)), 2 => KeySigned::Big(u32::make(r)), _ => KeySigned::Plain }
    }
    fn model() -> M { M::Or(vec![KeyThrough::model(), i8::model(), u32::model(), M::Alt(vec![("Plain", None)])]) }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, JsonSchema)]
#[serde(untagged)]
pub enum KeyFree { Num(i64), Text(String) }
impl Lib for KeyFree {
    fn make(r: &mut Rng) -> Self { if r.chance(1, 2) { KeyFree::Num(i64::make(r)) } else { KeyFree::Text(text(r)) } }
    fn model() -> M { M::Or(vec![i64::model(), M::Str]) }
}
fn weekday() -> M {
    M::Alt(["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"].into_iter().map(|d| (d, None)).collect())
}
impl<const N: usize> Lib for ArrayString<N> {
    fn make(r: &mut Rng) -> Self {
        let mut s = ArrayString::new();
        for c in text(r).chars() {
            let _ = s.try_push(c);
        }
        s
    }
    fn model() -> M { M::Con(bx(M::Str), bx(M::Fmt(|s| if s.is_empty() { Yes } else { Unk }, &[""]))) }
}

macro_rules! pass { ($([$($g:tt)*] $t:ty, |$r:ident| $e:expr;)*) => {$(
    impl<$($g)*> Lib for $t where $t: Serialize + JsonSchema { fn make($r: &mut Rng) -> Self { $e } fn model() -> M { T::model() } }
)*} }
pass! {
    [T: Lib] Box<T>, |r| Box::new(T::make(r));
    [T: Lib] Rc<T>, |r| Rc::new(T::make(r));
    [T: Lib] Arc<T>, |r| Arc::new(T::make(r));
    [T: Lib] Cell<T>, |r| Cell::new(T::make(r));
    [T: Lib] RefCell<T>, |r| RefCell::new(T::make(r));
    [T: Lib] Mutex<T>, |r| Mutex::new(T::make(r));
    [T: Lib] RwLock<T>, |r| RwLock::new(T::make(r));
    [T: Lib] Wrapping<T>, |r| Wrapping(T::make(r));
    [T: Lib] Reverse<T>, |r| Reverse(T::make(r));
    [T: Lib + Clone] Cow<'static, T>, |r| if r.chance(1, 2) { Cow::Owned(T::make(r)) } else { Cow::Borrowed(Box::leak(Box::new(T::make(r)))) };
    [T: Lib] &'static T, |r| Box::leak(Box::new(T::make(r)));
    [T: Lib] &'static mut T, |r| Box::leak(Box::new(T::make(r)));
}
macro_rules! seqs { ($([$($g:tt)*] $t:ty, $m:ident;)*) => {$(
    impl<$($g)*> Lib for $t where $t: Serialize + JsonSchema {
        fn make(r: &mut Rng) -> Self { let n = few(r, 3); (0..n).map(|_| T::make(r)).collect() }
        fn model() -> M { M::$m(bx(T::model())) }
    }
)*} }
seqs! {
    [T: Lib] Vec<T>, Seq;
    [T: Lib] VecDeque<T>, Seq;
    [T: Lib] LinkedList<T>, Seq;
    [T: Lib + Ord] BinaryHeap<T>, Seq;
    [T: Lib + Ord] BTreeSet<T>, Set;
    [T: Lib + Eq + std::hash::Hash] HashSet<T>, Set;
    [T: Lib + Eq + std::hash::Hash] IndexSet<T>, Set;
    [T: Lib] Box<[T]>, Seq;
    [T: Lib] Arc<[T]>, Seq;
    [T: Lib, const N: usize] SmallVec<[T; N]>, Seq;
}
impl<T: Lib + Clone> Lib for Cow<'static, [T]> where Self: Serialize {
    fn make(r: &mut Rng) -> Self { Cow::Owned(Vec::make(r)) }
    fn model() -> M { M::Seq(bx(T::model())) }
}
impl<T: Lib, const N: usize> Lib for ArrayVec<T, N> {
    fn make(r: &mut Rng) -> Self { let n = few(r, N); (0..n).map(|_| T::make(r)).collect() }
    fn model() -> M { M::Len(bx(T::model()), 0, N) }
}
impl<T: Lib, const N: usize> Lib for [T; N] where [T; N]: Serialize + JsonSchema {
    fn make(r: &mut Rng) -> Self { std::array::from_fn(|_| T::make(r)) }
    fn model() -> M { M::Len(bx(T::model()), N, N) }
}
impl<T: Lib> Lib for Option<T> {
    fn make(r: &mut Rng) -> Self { if r.chance(1, 3) { None } else { Some(T::make(r)) } }
    fn model() -> M { M::Opt(bx(T::model())) }
}
impl<T: Lib> Lib for RcWeak<T> {
    fn make(r: &mut Rng) -> Self { if r.chance(1, 3) { RcWeak::new() } else { Rc::downgrade(Box::leak(Box::new(Rc::new(T::make(r))))) } }
    fn model() -> M { M::Opt(bx(T::model())) }
}
impl<T: Lib> Lib for ArcWeak<T> {
    fn make(r: &mut Rng) -> Self { if r.chance(1, 3) { ArcWeak::new() } else { Arc::downgrade(Box::leak(Box::new(Arc::new(T::make(r))))) } }
    fn model() -> M { M::Opt(bx(T::model())) }
}
impl<T: ?Sized> Lib for PhantomData<T> {
    fn make(_: &mut Rng) -> Self { PhantomData }
    fn model() -> M { M::Null }
}
impl<T: Lib, E: Lib> Lib for Result<T, E> {
    fn make(r: &mut Rng) -> Self { if r.chance(1, 2) { Ok(T::make(r)) } else { Err(E::make(r)) } }
    fn model() -> M { M::Alt(vec![("Ok", Some(T::model())), ("Err", Some(E::model()))]) }
}
impl<T: Lib, E: Lib> Lib for Either<T, E> {
    fn make(r: &mut Rng) -> Self { if r.chance(1, 2) { Either::Left(T::make(r)) } else { Either::Right(E::make(r)) } }
    fn model() -> M { M::Alt(vec![("Left", Some(T::model())), ("Right", Some(E::model()))]) }
}
impl<T: Lib> Lib for Bound<T> {
    fn make(r: &mut Rng) -> Self { match r.below(3) { 0 => Bound::Unbounded, 1 => Bound::Included(T::make(r)), _ => Bound::Excluded(T::make(r)) } }
    fn model() -> M { M::Alt(vec![("Included", Some(T::model())), ("Excluded", Some(T::model())), ("Unbounded", None)]) }
}
impl<T: Lib> Lib for Range<T> {
    fn make(r: &mut Rng) -> Self { T::make(r)..T::make(r) }
    fn model() -> M { M::Obj(vec![("start", T::model()), ("end", T::model())]) }
}
impl<T: Lib> Lib for RangeInclusive<T> {
    fn make(r: &mut Rng) -> Self { T::make(r)..=T::make(r) }
    fn model() -> M { M::Obj(vec![("start", T::model()), ("end", T::model())]) }
}
macro_rules! maps { ($([$($g:tt)*] $t:ty;)*) => {$(
    impl<K: Lib $($g)*, V: Lib> Lib for $t where $t: Serialize + JsonSchema {
        fn make(r: &mut Rng) -> Self { let n = few(r, 3); (0..n).map(|_| (K::make(r), V::make(r))).collect() }
        fn model() -> M { M::Map(bx(K::model()), bx(V::model())) }
    }
)*} }
maps! {
    [+ Ord] BTreeMap<K, V>;
    [+ Eq + std::hash::Hash] HashMap<K, V>;
    [+ Eq + std::hash::Hash] IndexMap<K, V>;
}
macro_rules! tups { ($(($($t:ident)*))*) => {$(impl<$($t: Lib),*> Lib for ($($t,)*) {
    fn make(r: &mut Rng) -> Self { ($($t::make(r),)*) }
    fn model() -> M { M::Tup(vec![$($t::model()),*]) }
})*} }
tups!((A)(A B)(A B C)(A B C D)(A B C D E)(A B C D E F)(A B C D E F G)(A B C D E F G H)(A B C D E F G H I)(A B C D E F G H I J)
    (A B C D E F G H I J K)(A B C D E F G H I J K L)(A B C D E F G H I J K L M0)(A B C D E F G H I J K L M0 N)
    (A B C D E F G H I J K L M0 N O)(A B C D E F G H I J K L M0 N O P));

/// Types only named by generated programs for `PhantomData`.
pub mod ext {
    pub struct NoSchema;
}

// ---------------------------------------------------------------------------------- the monitor

/// Reads integer formats as bounds, so that `format` and value can be compared for numbers too.
fn bound_formats(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(bound_formats),
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if !["const", "enum", "default", "examples"].contains(&k.as_str()) {
                    bound_formats(x)
                }
            }
            let f = o.get("format").and_then(Value::as_str).unwrap_or("").to_string();
            let b: Option<(Value, Value)> = match f.as_str() {
                "int8" => Some((json!(i8::MIN), json!(i8::MAX))),
                "int16" => Some((json!(i16::MIN), json!(i16::MAX))),
                "int32" => Some((json!(i32::MIN), json!(i32::MAX))),
                "int64" | "int" => Some((json!(i64::MIN), json!(i64::MAX))),
                "uint8" => Some((json!(0), json!(u8::MAX))),
                "uint16" => Some((json!(0), json!(u16::MAX))),
                "uint32" => Some((json!(0), json!(u32::MAX))),
                "uint64" | "uint" => Some((json!(0), json!(u64::MAX))),
                "float" => Some((json!(f32::MIN), json!(f32::MAX))),
                _ => None,
            };
            if let Some((lo, hi)) = b {
                let all = o.entry("allOf").or_insert(json!([]));
                if let Some(a) = all.as_array_mut() {
                    a.push(json!({"anyOf": [{"not": {"type": "number"}}, {"minimum": lo, "maximum": hi}]}));
                }
            }
        }
        _ => {}
    }
}
fn re(cell: &'static std::sync::OnceLock<regex::Regex>, s: &str, p: &str) -> bool {
    cell.get_or_init(|| regex::Regex::new(p).unwrap()).is_match(s)
}
macro_rules! fre { ($s:expr, $p:expr) => {{ static R: std::sync::OnceLock<regex::Regex> = std::sync::OnceLock::new(); re(&R, $s, $p) }} }
fn strict(schema: &Value) -> Result<Validator, String> {
    let mut s = schema.clone();
    bound_formats(&mut s);
    jsonschema::options()
        .with_draft(jsonschema::Draft::Draft202012)
        .should_validate_formats(true)
        .with_format("ipv4", |s: &str| s.parse::<Ipv4Addr>().is_ok())
        .with_format("ipv6", |s: &str| s.parse::<Ipv6Addr>().is_ok())
        .with_format("ip", |s: &str| s.parse::<IpAddr>().is_ok())
        .with_format("uuid", |s: &str| fre!(s, "^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$"))
        .with_format("uri", |s: &str| fre!(s, "^[A-Za-z][A-Za-z0-9+.-]*:[!-~]*$"))
        .with_format("date", |s: &str| fre!(s, r"^\d{4}-\d\d-\d\d$"))
        .with_format("partial-time", |s: &str| fre!(s, r"^\d\d:\d\d:\d\d(\.\d+)?$"))
        .with_format("partial-date-time", |s: &str| fre!(s, r"^\d{4}-\d\d-\d\d[Tt]\d\d:\d\d:\d\d(\.\d+)?$"))
        .with_format("date-time", |s: &str| fre!(s, r"^\d{4}-\d\d-\d\d[Tt]\d\d:\d\d:\d\d(\.\d+)?([Zz]|[+-]\d\d:\d\d)$"))
        .with_format("zoned-date-time", |s: &str| fre!(s, r"^\d{4}-\d\d-\d\d[Tt]\d\d:\d\d:\d\d(\.\d+)?([Zz]|[+-]\d\d:\d\d)\[[^\]]+\]$"))
        .with_format("duration", |s: &str| fre!(s, r"^P(\d+[YMWD])*(T(\d+(\.\d+)?[HMS])+)?$") && s.len() > 2)
        .build(&s)
        .map_err(|e| e.to_string())
}

fn numbers<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
    match v {
        Value::Number(_) => out.push(v),
        Value::Array(a) => a.iter_mut().for_each(|x| numbers(x, out)),
        Value::Object(o) => o.iter_mut().for_each(|(_, x)| numbers(x, out)),
        _ => {}
    }
}
fn tweak(v: &mut Value, words: &[String], r: &mut Rng) {
    if r.chance(1, 3) {
        let mut ns = vec![];
        numbers(v, &mut ns);
        if !ns.is_empty() {
            let i = r.below(ns.len());
            *ns[i] = r
                .pick(&[json!(-1), json!(0), json!(1), json!(127), json!(128), json!(255), json!(256), json!(-128), json!(-129), json!(32767), json!(32768),
                    json!(65535), json!(65536), json!(-32768), json!(-32769), json!(4294967296u64), json!(1000000000), json!(1.5), json!(-0.5)])
                .clone();
            return;
        }
    }
    mutate(v, words, r);
}

pub struct Run<'a> {
    pub rep: &'a mut Report,
    pub r: &'a mut Rng,
}
struct Built {
    label: String,
    con: C,
    v: Validator,
    strict: Option<Validator>,
    schema: Value,
}

fn build<T: JsonSchema>(rep: &mut Report, name: &str, r: &mut Rng) -> Vec<Built> {
    let mut out = vec![];
    for con in [C::Ser, C::De] {
        let all = [Dia::D20, Dia::D7, Dia::D19, Dia::OA3];
        let other = all[r.range(1, 3)];
        for (dia, inline) in [(Dia::D20, false), (other, r.chance(1, 2))] {
            let mut s = dia.settings();
            s.inline_subschemas = inline;
            s.contract = if con == C::Ser { Contract::Serialize } else { Contract::Deserialize };
            let label = format!("{}{}/{con:?}", dia.name(), if inline { "/inline" } else { "" });
            rep.breadcrumb(&format!("generate: {name} {label}"));
            let schema = match guarded(|| s.into_generator().into_root_schema_for::<T>().to_value()) {
                Ok(x) => x,
                Err(e) => {
                    rep.violation(&format!("panic:{name}"), &format!("generating the schema of {name} ({label}) panics: {e}"), json!(name));
                    continue;
                }
            };
            match compile(&schema, dia) {
                Ok(v) => {
                    let st = if dia == Dia::D20 { strict(&schema).ok() } else { None };
                    if dia == Dia::D20 && st.is_none() {
                        rep.inconclusive(format!("no format-asserting validator for {name}"));
                    }
                    out.push(Built { label, con, v, strict: st, schema })
                }
                Err(e) => rep.violation(&format!("invalid:{name}"), &format!("schema of {name} ({label}): {e}"), json!({"schema": schema})),
            }
        }
    }
    out
}

fn head(name: &str) -> String {
    name.chars().take(60).collect::<String>().replace(' ', "")
}

impl Run<'_> {
    /// A type that serde can read and write.
    pub fn both<T: Lib + DeserializeOwned>(&mut self, name: &str) {
        self.run::<T>(name, Some(|v: &Value| guarded(|| serde_json::from_value::<T>(v.clone()).is_ok()).unwrap_or(false)))
    }
    /// A type that serde can only write.
    pub fn ser<T: Lib>(&mut self, name: &str) {
        self.run::<T>(name, None)
    }
    fn run<T: Lib>(&mut self, name: &str, de: Option<fn(&Value) -> bool>) {
        if std::env::var("VH_ONLY").is_ok_and(|o| o != name) {
            return;
        }
        let rep = &mut *self.rep;
        let r = &mut *self.r;
        let built = build::<T>(rep, name, r);
        let m = T::model();
        let mut words = vec![];
        m.words(&mut words);
        rep.count("types");
        let mut docs: Vec<(Value, &str)> = vec![];
        let rounds = Report::scale(14, 60);
        for _ in 0..rounds {
            r.fuel = 12;
            EXTREME.with(|x| x.set(false));
            let v = T::make(r);
            let plain = !EXTREME.with(StdCell::get);
            // no JSON form (e.g. 128-bit integers beyond 64 bits): nothing to accept
            let Ok(j) = serde_json::to_value(&v) else {
                rep.count("values_without_json");
                continue;
            };
            rep.case(&format!("{name} {j}"), !j.is_null());
            rep.count("values");
            if m.accept(&j, C::Ser) == No {
                rep.inconclusive(format!("the model of {name} refuses {j}"));
            }
            let readable = de.is_some_and(|d| d(&j));
            for b in &built {
                if b.con == C::De && !readable {
                    continue;
                }
                if !b.v.is_valid(&j) {
                    rep.violation(&format!("rejects:{:?}:{}", b.con, head(name)), &format!("{name} ({}) rejects the serialized value {j}", b.label), json!({"value": j, "schema": b.schema}));
                }
                if let (Some(s), true) = (&b.strict, plain) {
                    rep.count("format_asserting_verdicts");
                    if b.v.is_valid(&j) && !s.is_valid(&j) {
                        rep.violation(&format!("format:{:?}:{}", b.con, head(name)), &format!("{name} ({}) states a format that {j} is not in", b.label), json!({"value": j, "schema": b.schema}));
                    }
                }
            }
            docs.push((j, "value"));
            docs.push((m.gen(r, C::De), "modelled"));
            docs.push((m.gen(r, C::Ser), "modelled"));
        }
        let n = docs.len();
        for _ in 0..rounds * 3 {
            if n == 0 {
                break;
            }
            let mut d = docs[r.below(n)].0.clone();
            tweak(&mut d, &words, r);
            docs.push((d, "mutated"));
        }
        for _ in 0..6 {
            docs.push((pool(r), "pool"));
        }
        for (d, kind) in &docs {
            let serde = de.map(|f| f(d));
            let (ms, md) = (m.accept(d, C::Ser), m.accept(d, C::De));
            for b in &built {
                let model = if b.con == C::Ser { ms } else { md };
                if model == No {
                    if b.con == C::De && serde == Some(true) {
                        rep.count("serde_more_lenient_than_model");
                        continue;
                    }
                    rep.case(&format!("{name} no {d}"), true);
                    rep.count("must_reject");
                    if b.v.is_valid(d) {
                        rep.violation(&format!("accepts:{:?}:{}", b.con, head(name)), &format!("{name} ({}) accepts the {kind} document {d}", b.label), json!({"doc": d, "schema": b.schema}));
                    }
                } else if b.con == C::De && model == Yes && serde == Some(true) {
                    rep.case(&format!("{name} yes {d}"), !d.is_null());
                    rep.count("must_accept");
                    if !b.v.is_valid(d) {
                        rep.violation(&format!("rejects-doc:{:?}:{}", b.con, head(name)), &format!("{name} ({}) rejects the {kind} document {d}, which deserializes", b.label), json!({"doc": d, "schema": b.schema}));
                    }
                }
            }
        }
        rep.sample(&head(name), || json!({"type": name, "value": docs.first().map(|d| &d.0), "documents": docs.len()}));
    }

    /// The recorded finding: decimal strings with a signed exponent (or any exponent in output).
    pub fn decimal_exponents(&mut self) {
        use std::str::FromStr;
        for s in ["1e+30", "1E-30", "-2.5e+40", "1E-9"] {
            let x = BigDecimal::from_str(s).unwrap();
            let j = serde_json::to_value(&x).unwrap();
            for con in [C::Ser, C::De] {
                let mut st = Dia::D20.settings();
                st.contract = if con == C::Ser { Contract::Serialize } else { Contract::Deserialize };
                let sch = st.into_generator().into_root_schema_for::<BigDecimal>().to_value();
                self.rep.case(&format!("BigDecimal {j} {con:?}"), true);
                if !compile(&sch, Dia::D20).is_ok_and(|v| v.is_valid(&j)) {
                    self.rep.violation("bigdecimal-exponent-output", &format!("BigDecimal ({con:?}) rejects {j}, the serialized form of {s}"), json!({"value": j, "schema": sch}));
                }
            }
        }
    }
    /// Types that only exist borrowed.
    pub fn borrowed(&mut self) {
        let sch = schemars::schema_for!(std::fmt::Arguments<'static>).to_value();
        let v = compile(&sch, Dia::D20).unwrap();
        for i in 0..5 {
            let j = serde_json::to_value(format_args!("a{i}")).unwrap();
            self.rep.case(&format!("Arguments {j}"), true);
            if !v.is_valid(&j) || v.is_valid(&json!(i)) {
                self.rep.violation("arguments", &format!("fmt::Arguments: {sch}"), sch.clone());
            }
        }
    }
}

pub fn main(go: fn(&mut Run)) {
    crate::report::hook();
    let mut rep = Report::new("C04");
    let prog = std::env::args().next().unwrap_or_default().rsplit('/').next().unwrap_or("").to_string();
    let mut r = Rng::from_env(&prog);
    go(&mut Run { rep: &mut rep, r: &mut r });
    rep.finish();
}
/// Generic library types for the identity programs.
pub mod ids_types {
    pub use arrayvec07::ArrayVec;
    pub use either1::Either;
}
