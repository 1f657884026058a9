//! Random values of Rust types, and helpers the generated programs call.
use crate::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

pub trait Arb: Sized {
    fn arb(r: &mut Rng) -> Self;
}

/// `skip_serializing_if` predicate: true for about half of the values of any type.
pub fn skip_some<T: serde::Serialize + ?Sized>(t: &T) -> bool {
    // Within itself it skips nothing: the text is written once, not again at every level.
    thread_local!(static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if INSIDE.replace(true) {
        return false;
    }
    let r = match serde_json::to_string(t) {
        Ok(s) => crate::hash(&s) % 2 == 0,
        Err(_) => true,
    };
    INSIDE.set(false);
    r
}

macro_rules! ints { ($($t:ty)*) => {$(impl Arb for $t {
    fn arb(r: &mut Rng) -> Self {
        match r.below(6) {
            0 => <$t>::MIN,
            1 => <$t>::MAX,
            2 => 0,
            3 => 1,
            4 => (r.below(100)) as $t,
            _ => r.next() as $t,
        }
    }
})*} }
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Arb for u128 { fn arb(r: &mut Rng) -> Self { u64::arb(r) as u128 } }
impl Arb for i128 { fn arb(r: &mut Rng) -> Self { i64::arb(r) as i128 } }
impl Arb for bool { fn arb(r: &mut Rng) -> Self { r.chance(1, 2) } }
impl Arb for () { fn arb(_: &mut Rng) -> Self {} }
impl Arb for f64 { fn arb(r: &mut Rng) -> Self { *r.pick(&[0.0, 1.0, -1.5, 3.25, 1e10, -0.0, 0.1, 1e300, 5e-324]) } }
impl Arb for f32 { fn arb(r: &mut Rng) -> Self { *r.pick(&[0.0, 1.0, -1.5, 3.25, 0.1, 1e30]) } }
impl Arb for char { fn arb(r: &mut Rng) -> Self { *r.pick(&['a', 'Z', '0', 'é', '\u{1F600}', '"', '\\', '\u{0}', '/', '~', '%', '\u{301}']) } }
impl Arb for String {
    fn arb(r: &mut Rng) -> Self {
        let n = r.below(4);
        (0..n).map(|_| char::arb(r)).collect()
    }
}
impl Arb for serde_json::Value {
    fn arb(r: &mut Rng) -> Self { crate::model::pool(r) }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(r: &mut Rng) -> Self {
        if r.fuel <= 0 || r.chance(1, 3) { return None; }
        r.fuel -= 1;
        Some(T::arb(r))
    }
}
fn len(r: &mut Rng) -> usize {
    if r.fuel <= 0 { return 0; }
    let n = r.below(4);
    r.fuel -= n as i32;
    n
}
macro_rules! colls { ($($t:ident [$($b:tt)*])*) => {$(impl<T: Arb $($b)*> Arb for $t<T> {
    fn arb(r: &mut Rng) -> Self { let n = len(r); (0..n).map(|_| T::arb(r)).collect() }
})*} }
colls!(Vec [] VecDeque [] LinkedList [] BTreeSet [+ Ord] HashSet [+ Eq + std::hash::Hash]);
impl<K: Key + Ord, V: Arb> Arb for BTreeMap<K, V> {
    fn arb(r: &mut Rng) -> Self { let n = len(r); (0..n).map(|_| (K::key(r), V::arb(r))).collect() }
}
impl<K: Key + Eq + std::hash::Hash, V: Arb> Arb for HashMap<K, V> {
    fn arb(r: &mut Rng) -> Self { let n = len(r); (0..n).map(|_| (K::key(r), V::arb(r))).collect() }
}
/// Map keys (string keys carry a prefix that no field name has).
pub trait Key: Sized { fn key(r: &mut Rng) -> Self; }
impl Key for String { fn key(r: &mut Rng) -> Self { format!("m_{}", String::arb(r)) } }
macro_rules! keys { ($($t:ty)*) => {$(impl Key for $t { fn key(r: &mut Rng) -> Self { <$t>::arb(r) } })*} }
keys!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool char);
impl<T: Arb> Arb for Box<T> { fn arb(r: &mut Rng) -> Self { Box::new(T::arb(r)) } }
impl<T: Arb> Arb for std::rc::Rc<T> { fn arb(r: &mut Rng) -> Self { std::rc::Rc::new(T::arb(r)) } }
impl<T: Arb> Arb for std::sync::Arc<T> { fn arb(r: &mut Rng) -> Self { std::sync::Arc::new(T::arb(r)) } }
impl<T: Arb> Arb for std::cell::RefCell<T> { fn arb(r: &mut Rng) -> Self { std::cell::RefCell::new(T::arb(r)) } }
impl<T: Arb + Clone> Arb for std::borrow::Cow<'static, T> { fn arb(r: &mut Rng) -> Self { std::borrow::Cow::Owned(T::arb(r)) } }
impl<T> Arb for std::marker::PhantomData<T> { fn arb(_: &mut Rng) -> Self { std::marker::PhantomData } }
impl<T: Arb, const N: usize> Arb for [T; N] { fn arb(r: &mut Rng) -> Self { std::array::from_fn(|_| T::arb(r)) } }
macro_rules! tups { ($(($($t:ident)*))*) => {$(impl<$($t: Arb),*> Arb for ($($t,)*) {
    fn arb(r: &mut Rng) -> Self { ($($t::arb(r),)*) }
})*} }
tups!((A) (A B) (A B C) (A B C D));
// Wrappers consume the random stream exactly as what they wrap (twin programs rely on it).
impl<T: Arb> Arb for std::cell::Cell<T> { fn arb(r: &mut Rng) -> Self { std::cell::Cell::new(T::arb(r)) } }
impl<T: Arb> Arb for std::sync::Mutex<T> { fn arb(r: &mut Rng) -> Self { std::sync::Mutex::new(T::arb(r)) } }
impl<T: Arb> Arb for std::sync::RwLock<T> { fn arb(r: &mut Rng) -> Self { std::sync::RwLock::new(T::arb(r)) } }
impl<T: Arb> Arb for std::num::Wrapping<T> { fn arb(r: &mut Rng) -> Self { std::num::Wrapping(T::arb(r)) } }
impl<T: Arb> Arb for std::cmp::Reverse<T> { fn arb(r: &mut Rng) -> Self { std::cmp::Reverse(T::arb(r)) } }
impl<T: Arb> Arb for &'static T { fn arb(r: &mut Rng) -> Self { Box::leak(Box::new(T::arb(r))) } }
impl<T: Arb> Arb for &'static mut T { fn arb(r: &mut Rng) -> Self { Box::leak(Box::new(T::arb(r))) } }
impl<T: Arb> Arb for std::rc::Weak<T> {
    fn arb(r: &mut Rng) -> Self {
        Option::<T>::arb(r).map_or_else(std::rc::Weak::new, |t| {
            let rc = std::rc::Rc::new(t);
            let w = std::rc::Rc::downgrade(&rc);
            std::mem::forget(rc);
            w
        })
    }
}
impl<T: Arb> Arb for std::sync::Weak<T> {
    fn arb(r: &mut Rng) -> Self {
        Option::<T>::arb(r).map_or_else(std::sync::Weak::new, |t| {
            let rc = std::sync::Arc::new(t);
            let w = std::sync::Arc::downgrade(&rc);
            std::mem::forget(rc);
            w
        })
    }
}
/// A type without a schema of its own (for `with` and `schema_with`).
#[derive(Clone, Debug, Default)]
pub struct Opaque<X>(pub X);
impl<'de, X: serde::Deserialize<'de>> serde::Deserialize<'de> for Opaque<X> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { X::deserialize(d).map(Opaque) }
}
impl<X: Arb> Arb for Opaque<X> { fn arb(r: &mut Rng) -> Self { Opaque(X::arb(r)) } }
impl<X: serde::Serialize> serde::Serialize for Opaque<X> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) }
}
/// A `skip_serializing_if` predicate without any bound.
pub fn skip_any<T: ?Sized>(_: &T) -> bool { false }
