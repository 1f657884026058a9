"""Programs for C25: valid uses of every documented attribute, misuses derived from them, and pairs for
the comparison with serde's own derive."""
import copy
import random

PRELUDE = r'''#![allow(dead_code, unused, deprecated, non_camel_case_types, non_snake_case, private_interfaces)]
use std::collections::BTreeMap;
use std::marker::PhantomData;
use schemars::{JsonSchema, JsonSchema_repr, Schema, SchemaGenerator};
const CMIN: usize = 1;
const CMAX: usize = 40;
static RE: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| "^[a-z]".to_string());
mod util {
    pub fn schema_fn(_: &mut schemars::SchemaGenerator) -> schemars::Schema { schemars::json_schema!({"type": "string"}) }
    pub fn generic_fn<T>(_: &mut schemars::SchemaGenerator) -> schemars::Schema { schemars::json_schema!({"type": "string"}) }
    pub fn touch(s: &mut schemars::Schema) { s.insert("x-touched".into(), true.into()); }
    pub struct Touch(pub i32);
    impl schemars::transform::Transform for Touch { fn transform(&mut self, s: &mut schemars::Schema) { s.insert("x-n".into(), self.0.into()); } }
    pub fn dflt<T: Default>() -> T { T::default() }
    pub fn is_dflt<T: Default + PartialEq>(t: &T) -> bool { *t == T::default() }
    pub fn eg() -> Vec<i32> { vec![1, 2] }
    pub const TEXT: &str = "a text";
    pub mod reexport { pub use schemars; }
    // types whose schemas need one of the mentioned types to have a schema
    macro_rules! stands_for { ($($name:ident $what:ty [$($g:tt)*] = $is:ty;)*) => {$(
        impl<$($g)*> schemars::JsonSchema for $name<$what> {
            fn schema_name() -> std::borrow::Cow<'static, str> { <$is as schemars::JsonSchema>::schema_name() }
            fn json_schema(g: &mut schemars::SchemaGenerator) -> schemars::Schema { <$is as schemars::JsonSchema>::json_schema(g) }
        }
    )*} }
    pub trait Tr<X> {}
    pub trait Two { type A; type B; }
    pub trait Id { type Out; }
    impl<X> Id for X { type Out = X; }
    pub struct Returns<X>(pub Option<X>);
    pub struct Takes<X>(pub Option<X>);
    pub struct Raw<X>(pub Option<X>);
    pub struct Object<X: ?Sized>(pub std::marker::PhantomData<X>);
    pub struct Callback<X: ?Sized>(pub std::marker::PhantomData<X>);
    pub struct Sized3<X, const N: usize>(pub Option<X>);
    stands_for! {
        Returns fn(A) -> R [A, R: schemars::JsonSchema] = R;
        Takes fn(A) -> R [A: schemars::JsonSchema, R] = A;
        Raw *const R [R: schemars::JsonSchema] = R;
        Raw *mut R [R: schemars::JsonSchema] = R;
        Object dyn Tr<R> [R: schemars::JsonSchema] = R;
        Object dyn Iterator<Item = R> [R: schemars::JsonSchema] = R;
        Object dyn Two<A = i32, B = R> [R: schemars::JsonSchema] = R;
        Callback dyn Fn(R) [R: schemars::JsonSchema] = R;
        Callback dyn FnOnce(u8) -> R [R: schemars::JsonSchema] = R;
    }
}
#[derive(Default, Clone, PartialEq, JsonSchema)]
struct Sub { s0: i32, s1: String }
#[derive(Default, Clone, PartialEq)]
struct NoSchema;
fn needs<T: JsonSchema>() {}
mod as_text {
    pub struct As<T>(std::marker::PhantomData<T>);
    impl<T> As<T> { pub fn serialize<V, S: serde::Serializer>(_: &V, s: S) -> Result<S::Ok, S::Error> { s.serialize_str("") } }
    impl<T: schemars::JsonSchema> schemars::JsonSchema for As<T> {
        fn schema_name() -> std::borrow::Cow<'static, str> { "As".into() }
        fn json_schema(g: &mut schemars::SchemaGenerator) -> schemars::Schema { g.subschema_for::<T>() }
    }
}
type AsText = as_text::As<String>;
'''

FIELD_TYPES = ["String", "i32", "Vec<String>", "Option<i32>", "Option<String>", "Sub", "BTreeMap<String, i32>", "Vec<Option<u8>>", "(i32, String)", "bool"]
STRINGY = ("String", "Option<String>", "Vec<String>", "BTreeMap<String, i32>", "Vec<Option<u8>>")
CASES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


class Slot:
    """A place attributes can be written at."""

    def __init__(self, pos, shape, **kw):
        self.pos, self.shape = pos, shape          # container | variant | field
        self.attrs = []                            # (keyword, inner text, spelling)
        self.docs = []
        self.ty = kw.get("ty")                     # of a field
        self.named = kw.get("named", False)
        self.repr = kw.get("repr")                 # of an enum: ext, int, adj, unt
        self.last = kw.get("last", False)
        self.generic = kw.get("generic", False)
        self.is_repr = kw.get("is_repr", False)
        self.in_variant = kw.get("in_variant", False)
        self.lines = None

    def has(self, *kws):
        return any(k in kws for k, _, _ in self.attrs)

    def drop(self, *kws):
        self.attrs = [a for a in self.attrs if a[0] not in kws]


class Item:
    def __init__(self, name):
        self.name = name
        self.kind = "struct"        # struct, tuple, unit, enum, repr, union
        self.generics = []          # (declaration, use)
        self.where = ""
        self.head = Slot("container", "struct")
        self.fields = []            # (slot, name)
        self.variants = []          # (slot, name, style, [(slot, name)])
        self.raw_before = {}        # id(slot) -> extra raw attribute lines
        self.derive = "JsonSchema"
        self.uses = []              # instantiations that have to work
        self.needs_default = False

    def slots(self):
        out = [self.head]
        for s, _ in self.fields:
            out.append(s)
        for s, _, _, fs in self.variants:
            out.append(s)
            out += [f for f, _ in fs]
        return out


def attr_lines(slot, rng, spelling=None):
    """Groups the slot's attributes into attribute lines."""
    out = []
    for d in slot.docs:
        out.append(d)
    group = []
    for kw, text, sp in slot.attrs:
        sp = spelling or sp
        if group and (group[0][1] != sp or rng.random() < 0.4):
            out.append("#[%s(%s)]" % (group[0][1], ", ".join(t for t, _ in group)))
            group = []
        group.append((text, sp))
    if group:
        out.append("#[%s(%s)]" % (group[0][1], ", ".join(t for t, _ in group) + (rng.choice(["", "", ","]))))
    return out


def render(item, rng, lines, spelling=None, derives=None):
    """Appends the item's source lines to `lines`; records the line ranges (1-based) of its slots."""
    start = len(lines) + 1
    def put(slot, ind, decl):
        a = len(lines) + 1
        for t in attr_lines(slot, rng, spelling):
            lines.append(ind + t)
        for t in item.raw_before.get(id(slot), []):
            lines.append(ind + t)
        lines.append(ind + decl)
        slot.lines = [a, len(lines)]
    d = derives or ([item.derive] + (["Default", "Clone", "PartialEq"] if item.needs_default else []))
    lines.append("#[derive(%s)]" % ", ".join(d))
    g = "<%s>" % ", ".join(x for x, _ in item.generics) if item.generics else ""
    if item.kind == "unit":
        put(item.head, "", "struct %s%s;" % (item.name, g))
    elif item.kind in ("struct", "union"):
        put(item.head, "", "%s %s%s %s{" % (item.kind, item.name, g, item.where))
        for s, n in item.fields:
            put(s, "    ", "%s: %s," % (n, s.ty))
        lines.append("}")
    elif item.kind == "tuple":
        put(item.head, "", "struct %s%s(" % (item.name, g))
        for s, n in item.fields:
            put(s, "    ", "%s," % s.ty)
        lines.append(") %s;" % item.where)
    else:
        if item.kind == "repr":
            lines.append("#[repr(%s)]" % item.repr_int) if item.repr_int else None
        put(item.head, "", "enum %s%s %s{" % (item.name, g, item.where))
        for s, n, style, fs in item.variants:
            if style == "unit":
                put(s, "    ", n + (" = %d" % item.discr[n] if item.kind == "repr" and n in item.discr else "") + ",")
            else:
                put(s, "    ", n + (" {" if style == "struct" else "("))
                for f, fname in fs:
                    put(f, "        ", ("%s: " % fname if style == "struct" else "") + f.ty + ",")
                lines.append("    " + ("}," if style == "struct" else "),"))
        lines.append("}")
    for u in item.uses if not derives else []:
        lines.append("fn _use_%s_%d() { needs::<%s>() }" % (item.name.lower(), len(lines), u))
    item.lines = [start, len(lines)]


# ---------------------------------------------------------------- valid attributes
def common(rng, slot):
    k = rng.choice(["title", "title", "description", "description", "example", "extend", "transform", "doc", "deprecated"])
    if k == "doc":
        if not slot.docs:
            slot.docs.append(rng.choice(["/// a doc comment", "/// # A heading\n    ///\n    /// text", "#[doc = \"doc attribute\"]", "/** block */"]).split("\n")[0])
        return None
    if k == "deprecated":
        if any("deprecated" in d for d in slot.docs):
            return None
        slot.docs.append(rng.choice(["#[deprecated]", "#[deprecated = \"old\"]", "#[deprecated(note = \"x\", since = \"1\")]"]))
        return None
    if k in ("title", "description"):
        if slot.has(k):
            return None
        return k, "%s = %s" % (k, rng.choice(['"some text"', "util::TEXT", 'concat!("a", "b")', '""', '"quote \\" and {braces}"', 'r#"raw "text""#'])), "schemars"
    if k == "example":
        return k, "example = " + rng.choice(["1", "-1.5", '"two words"', '&"word"', "util::eg()", "true", "(1, \"x\")", "Some(3)", "None::<i32>", "util::TEXT", "String::from(\"a\")"]), "schemars"
    if k == "extend":
        used = len([1 for a in slot.attrs if a[0] == "extend"])
        pairs = ['"x-%d-%d" = %s' % (used, i, rng.choice(["1", '"s"', "null", '{"a": [1, 2, {"b": null}]}', "[1, 2]", "util::TEXT", "-3", "util::eg()", "true"])) for i in range(rng.randint(1, 3))]
        return k, "extend(%s%s)" % (", ".join(pairs), rng.choice(["", ","])), "schemars"
    return k, "transform = " + rng.choice(["util::touch", "util::Touch(3)", "schemars::transform::RecursiveTransform(util::touch)", "schemars::transform::RemoveRefSiblings::default()"]), "schemars"


def lenrange(rng, what):
    n = (lambda: rng.choice(["1", "7", "CMIN", "\"2\"", "2 + 1"])) if what == "length" else (lambda: rng.choice(["1", "-4", "2.5", "CMIN", "i64::MIN", "\"2\"", "3 * 2"]))
    r = rng.random()
    if r < 0.25:
        return "%s(min = %s)" % (what, n())
    if r < 0.5:
        return "%s(max = %s)" % (what, n())
    if r < 0.8:
        return "%s(min = %s, max = %s%s)" % (what, n(), n(), rng.choice(["", ","]))
    return "%s(equal = %s)" % (what, n())


def validation(rng, slot, inner=False):
    """(keyword, text, spelling)"""
    sp = rng.choice(["schemars", "schemars", "schemars", "validate", "garde"])
    if inner:
        sp = "schemars"
    k = rng.choice(["length", "range", "fmt", "pat", "required", "inner"])
    if k in ("length", "range"):
        if slot.has(k):
            return None
        if sp == "validate" and rng.random() < 0.5:
            return k, "%s(min = 1, message = \"m\", code = \"c\")" % k, sp
        return k, lenrange(rng, k), sp
    if k == "fmt":
        if slot.has("email", "url", "ip", "ipv4", "ipv6"):
            return None
        f = rng.choice(["email", "url"] if sp == "validate" else ["email", "url", "ip", "ipv4", "ipv6"])
        return f, f + ('(message = "m")' if sp == "validate" and rng.random() < 0.5 else ""), sp
    if k == "pat":
        if slot.has("pattern", "regex", "contains"):
            return None
        f = rng.choice({"schemars": ["pattern", "regex", "contains"], "validate": ["regex", "contains"], "garde": ["pattern", "contains"]}[sp])
        t = {("pattern", "schemars"): ['pattern(r"^a")', "pattern(*RE)", 'pattern("a|b")'], ("pattern", "garde"): ['pattern(r"^a")', "pattern(*RE)"],
             ("regex", "schemars"): ['regex(pattern = r"^a")', "regex(pattern = *RE)"], ("regex", "validate"): ["regex(path = *RE)", 'regex(path = "RE")', 'regex(path = *RE, message = "m")'],
             ("contains", "schemars"): ['contains("x.y")', 'contains(pattern = "x.y")', "contains(util::TEXT)", "contains(pattern = util::TEXT)"],
             ("contains", "validate"): ['contains(pattern = "x")', 'contains(pattern = "x", message = "m")'], ("contains", "garde"): ['contains("x")', "contains(util::TEXT)"]}[f, sp]
        return f, rng.choice(t), sp
    if k == "required":
        if slot.has("required") or inner or not (slot.ty or "").startswith("Option"):
            return None
        return k, "required" + ('(message = "m")' if sp == "validate" and rng.random() < 0.5 else ""), sp
    if slot.has("inner") or inner == 2:
        return None
    sub = Slot("field", "x", ty="String")
    for _ in range(rng.randint(1, 3)):
        v = validation(rng, sub, (inner or 0) + 1)
        if v:
            sub.attrs.append(v)
    if not sub.attrs:
        return None
    t = "inner(%s)" % ", ".join(t for _, t, _ in sub.attrs)
    # garde writes `contains(expr)` only
    return k, t, rng.choice(["schemars", "garde"]) if not inner and "contains(pattern" not in t else "schemars"


def serdeish(rng, item, slot):
    """An attribute shared with serde."""
    sp = rng.choice(["schemars", "schemars", "serde"])
    g = [u for d, u in item.generics if not d.startswith(("'", "const"))]
    if slot.pos == "container":
        enum = item.kind == "enum"
        opts = ["rename", "rename_all", "deny_unknown_fields", "crate", "inline", "bound"] + (["rename_all_fields"] if enum else []) + \
            (["default"] if item.kind == "struct" else []) + ["from", "try_from", "into", "with", "schema_with", "transparent"]
        k = rng.choice(opts)
        if slot.has(k):
            return None
        if k == "rename":
            pats = ['rename = "Renamed%s"' % item.name]
            if g and not item.plain_bounds:
                pats = []
            if g and sp == "schemars":
                pats += ['rename = "%s_of_{%s}"' % (item.name, rng.choice(g)), 'rename = "{{%s_{%s}_"' % (item.name, rng.choice(g))] if item.plain_bounds else []
            return (k, rng.choice(pats), sp) if pats else None
        if k == "rename_all":
            c = lambda: rng.choice(CASES)
            return k, rng.choice(['rename_all = "%s"' % c(), 'rename_all(serialize = "%s")' % c(), 'rename_all(serialize = "%s", deserialize = "%s")' % (c(), c())]), sp
        if k == "rename_all_fields":
            return k, 'rename_all_fields = "%s"' % rng.choice(CASES), sp
        if k == "deny_unknown_fields":
            return (k, k, sp) if item.kind in ("struct", "enum") else None
        if k == "crate":
            return (k, 'crate = "%s"' % rng.choice(["schemars", "::schemars", "util::reexport::schemars"]), "schemars")
        if k == "inline":
            return k, k, "schemars"
        if k == "bound":
            if not g or not item.plain_bounds:
                return None
            return k, 'bound = "%s"' % ", ".join("%s: schemars::JsonSchema" % x for x in g), "schemars"
        if k == "default":
            item.needs_default = True
            return k, rng.choice(["default", "default", "default = \"util::dflt\""]), sp
        if slot.has("from", "try_from", "into", "with", "schema_with", "transparent", "rename_all", "rename_all_fields", "deny_unknown_fields", "default", "tag", "untagged") and rng.random() < 0.95:
            return None
        if slot.has("from", "try_from", "with", "schema_with", "transparent") or (k == "transparent" and slot.has("into", "default")):
            return None
        if k == "transparent":
            if item.kind not in ("struct", "tuple") or len(item.fields) != 1 or item.fields[0][0].attrs:
                return None
            return k, k, sp
        if k == "schema_with":
            return k, 'schema_with = "util::schema_fn"', "schemars"
        ty = rng.choice(["String", "Vec<i32>", "Sub", "Vec::<Option<u8>>", "(i32, i32)"])
        return k, '%s = "%s"' % (k, ty), "schemars" if k == "with" else sp
    if slot.pos == "variant":
        k = rng.choice(["rename", "rename_all", "skip", "skip_serializing", "skip_deserializing", "untagged", "with", "schema_with", "bound"])
        if slot.has(k):
            return None
        if k == "rename":
            return k, rng.choice(['rename = "vvv-%d"' % rng.randint(0, 9999), 'rename(serialize = "sv%d")' % rng.randint(0, 9999)]), sp
        if k == "rename_all":
            return (k, 'rename_all = "%s"' % rng.choice(CASES), sp) if slot.shape == "struct" else None
        if k == "untagged":
            return (k, k, sp) if slot.last and slot.repr in ("ext", "int", "adj") else None
        if k in ("with", "schema_with"):
            if slot.has("with", "schema_with") or slot.repr == "int":
                return None
            return k, 'with = "%s"' % rng.choice(["String", "Vec<i32>", "Sub"]) if k == "with" else 'schema_with = "util::schema_fn"', "schemars"
        if k == "bound":
            return None
        return (k, k, sp) if not slot.has("skip", "skip_serializing", "skip_deserializing") and not slot.is_repr else None
    k = rng.choice(["rename", "rename", "default", "skip", "skip_serializing", "skip_deserializing", "skip_serializing_if", "flatten", "with", "schema_with"])
    if slot.has(k):
        return None
    if k == "rename":
        return (k, rng.choice(['rename = "fff-%d"' % rng.randint(0, 9999), 'rename(serialize = "a%d", deserialize = "b%d")' % (rng.randint(0, 9999), rng.randint(0, 9999)), 'rename(deserialize = "c%d")' % rng.randint(0, 9999)]), sp) if slot.named else None
    if slot.has("flatten"):
        return None
    gen = any(x in (slot.ty or "") for x in g)
    if k == "default":
        if not slot.named or gen:
            return None
        return k, rng.choice(["default", 'default = "util::dflt"', 'default = "Default::default"']), sp
    if k in ("skip", "skip_serializing", "skip_deserializing"):
        return (k, k, sp) if not slot.has("skip", "skip_serializing", "skip_deserializing") and not slot.generic and not item.single else None
    if k == "skip_serializing_if":
        return (k, 'skip_serializing_if = "util::is_dflt"', sp) if slot.named and not gen else None
    if k == "flatten":
        if not slot.named or slot.ty not in ("Sub", "BTreeMap<String, i32>") or slot.has("default", "skip", "skip_serializing", "skip_deserializing", "skip_serializing_if", "with", "schema_with", "rename"):
            return None
        if item.head.has("deny_unknown_fields", "transparent"):
            return None
        if sp == "schemars" and rng.random() < 0.4:
            # the schema may still come from elsewhere
            return k, "flatten, " + rng.choice(['with = "Sub"', 'with = "Option<Sub>"', 'with = "BTreeMap<String, Sub>"', 'schema_with = "util::schema_fn"', 'schema_with = "util::generic_fn::<i32>"']), sp
        return k, k, sp
    if slot.has("with", "schema_with"):
        return None
    if slot.generic:
        return None
    if k == "with":
        if sp == "serde":
            return k, 'with = "%s"' % rng.choice(["AsText", "self::AsText", "as_text::As::<i32>"]), sp
        return k, 'with = "%s"' % rng.choice(["String", "Vec<i32>", "Sub", "Option::<Vec<u8>>", "BTreeMap<String, Sub>", "[u8; 3]", "(i32, Sub)"]), sp
    return k, 'schema_with = "%s"' % rng.choice(["util::schema_fn", "util::generic_fn::<i32>"]), "schemars"


def make_fields(rng, item, n, named, in_variant=False, types=None):
    out = []
    for i in range(n):
        ty = (types or [None] * n)[i] or rng.choice(FIELD_TYPES)
        s = Slot("field", "field", ty=ty, named=named, in_variant=in_variant)
        out.append((s, "f%d" % i if rng.random() < 0.8 else "some_field_%d" % i))
    return out


def base(rng, name):
    it = Item(name)
    it.plain_bounds = True
    it.single = False
    it.repr_int, it.discr = None, {}
    k = rng.random()
    if k < 0.35:
        it.kind = "struct"
        it.fields = make_fields(rng, it, rng.randint(1, 4), True)
        it.single = len(it.fields) == 1
    elif k < 0.5:
        it.kind = "tuple"
        it.fields = make_fields(rng, it, rng.choice([1, 1, 2, 3]), False)
        it.single = True
    elif k < 0.54:
        it.kind = "unit"
    elif k < 0.92:
        it.kind = "enum"
        rep = rng.choice(["ext", "int", "adj", "unt"])
        it.rep = rep
        it.head.repr = rep
        if rep == "int":
            it.head.attrs.append(("tag", 'tag = "the_tag"', rng.choice(["schemars", "serde"])))
        if rep == "adj":
            sp = rng.choice(["schemars", "serde"])
            it.head.attrs += [("tag", 'tag = "t"', sp), ("content", 'content = "c"', sp)]
        if rep == "unt":
            it.head.attrs.append(("untagged", "untagged", rng.choice(["schemars", "serde"])))
        n = rng.randint(1, 4)
        for i in range(n):
            style = rng.choice(["unit", "newtype", "struct"] + (["tuple"] if rep != "int" else []))
            fs = {"unit": [], "newtype": make_fields(rng, it, 1, False, True, ["Sub"] if rep == "int" else None),
                  "struct": make_fields(rng, it, rng.randint(1, 3), True, True), "tuple": make_fields(rng, it, 2, False, True)}[style]
            it.variants.append((Slot("variant", style, repr=rep, last=i == n - 1), "V%d" % i if rng.random() < 0.7 else "SomeVariant%d" % i, style, fs))
        it.single = False
    else:
        it.kind = "repr"
        it.derive = "JsonSchema_repr"
        it.repr_int = rng.choice(["u8", "i32", "u64", "i8"])
        for i in range(rng.randint(1, 4)):
            it.variants.append((Slot("variant", "unit", is_repr=True), "R%d" % i, "unit", []))
            if rng.random() < 0.4:
                it.discr["R%d" % i] = i * 7
    it.head.shape = it.kind
    if it.kind in ("struct", "tuple", "enum") and rng.random() < 0.45:
        make_generic(rng, it)
    return it


# all of them need their parameter to have a schema, and have one then
WRAPS = ["T", "Option<T>", "Vec<T>", "Box<T>", "BTreeMap<String, T>", "(T, i32)", "[T; 2]", "Vec<Option<T>>"]
ODD_WRAPS = ["Box<[T]>", "std::rc::Rc<[(u8, T)]>", "(T)", "((T),)", "[[T; 1]; 2]", "Vec<([T; 3], u8)>", "(i32, (bool, T))", "std::collections::LinkedList<T>",
             "util::Returns<fn(u8) -> T>", "util::Takes<fn(T)>", "util::Raw<*const T>", "util::Raw<*mut T>", "util::Object<dyn util::Tr<T>>",
             "util::Object<dyn Iterator<Item = T>>", "util::Object<dyn util::Two<A = i32, B = T>>", "util::Callback<dyn Fn(T)>",
             "util::Callback<dyn FnOnce(u8) -> T>", "<Vec<T> as util::Id>::Out", "<T as util::Id>::Out", "std::num::Wrapping<T>"]


def make_generic(rng, it):
    all_fields = [f for f in it.fields] + [f for _, _, _, fs in it.variants for f in fs if it.head.repr != "int" or f[0].named]
    if not all_fields:
        return
    k = rng.choice(["used", "used", "two", "phantom", "skipped", "with", "schema_with", "const", "lifetime", "where", "defaulted", "field_bound"])
    s = rng.choice(all_fields)[0]
    s.generic = True
    wrap = rng.choice(WRAPS)
    it.uses = ["%s<i32>" % it.name, "%s<Sub>" % it.name]
    if k == "used":
        it.generics = [("T", "T")]
        s.ty = rng.choice(ODD_WRAPS) if not it.needs_default and not s.attrs and rng.random() < 0.6 else wrap
        if not it.single and rng.random() < 0.3 and not s.attrs and not it.head.has("transparent"):
            # skipped one way only, so the other way still needs the type's schema
            k = rng.choice(["skip_serializing", "skip_deserializing"])
            # (what is not deserialized has to have a default, which is the member's own affair)
            s.ty = wrap if k == "skip_serializing" else rng.choice(["Option<T>", "Vec<T>", "BTreeMap<String, T>", "Vec<Option<T>>"])
            s.attrs.append((k, k, rng.choice(["serde", "schemars"])))
    elif k == "two":
        it.generics = [("T", "T"), ("U", "U")]
        s.ty = rng.choice(["(T, U)", "Result<T, U>", "BTreeMap<String, (T, Vec<U>)>"])
        it.uses = ["%s<i32, Sub>" % it.name, "%s<Sub, String>" % it.name]
    elif k == "where":
        it.generics = [("T", "T")]
        it.where = "where T: Clone "
        s.ty = wrap
    elif k == "defaulted":
        it.generics = [("T = i32", "T")]
        s.ty = wrap
        it.uses = ["%s" % it.name, "%s<Sub>" % it.name]
    elif k == "const":
        it.generics = [("const N: usize", "N")]
        s.ty = "PhantomData<[u8; N]>"
        it.uses = ["%s<0>" % it.name, "%s<3>" % it.name]
        it.plain_bounds = False
    elif k == "lifetime":
        it.generics = [("'a", "'a")]
        s.ty = rng.choice(["&'a str", "std::borrow::Cow<'a, str>", "&'a [i32]"])
        it.uses = ["%s<'static>" % it.name]
        it.plain_bounds = False
    else:
        it.generics = [("T", "T")]
        it.plain_bounds = False
        it.uses = ["%s<i32>" % it.name, "%s<NoSchema>" % it.name]
        if k == "phantom":
            s.ty = rng.choice(["PhantomData<T>", "std::marker::PhantomData<T>"])
        elif k == "skipped":
            if it.kind == "tuple" and len(it.fields) == 1:
                # serde does not skip the member of a newtype struct
                s.ty, it.uses = "PhantomData<T>", ["%s<i32>" % it.name]
                return
            s.ty = wrap
            sp = rng.choice(["serde", "schemars"])
            both = [("skip_serializing", "skip_serializing", sp), ("skip_deserializing", "skip_deserializing", sp)]
            owners = [v for v, _, _, fs in it.variants if any(f is s for f, _ in fs) and not v.has("skip", "skip_serializing", "skip_deserializing", "with", "schema_with", "untagged") and not v.is_repr]
            to = owners[0] if owners and len(it.variants) > 1 and rng.random() < 0.4 else s
            to.attrs += both if rng.random() < 0.3 else [("skip", "skip", sp)]
        elif k == "with":
            s.ty = wrap
            sp = rng.choice(["serde", "schemars"])
            if sp == "schemars" and rng.random() < 0.5:
                s.attrs.append(("with", 'with = "%s"' % rng.choice(["Vec<T>", "(T, i32)", "[T; 2]", "Option<(T,)>", "Vec<[(i32, T); 1]>", "Box<[T]>"]), sp))
                it.uses = ["%s<i32>" % it.name]
                return
            s.attrs.append(("with", 'with = "%s"' % ("AsText" if sp == "serde" else rng.choice(["String", "Sub"])), sp))
        elif k == "schema_with":
            s.ty = wrap
            s.attrs.append(("schema_with", 'schema_with = "%s"' % rng.choice(["util::schema_fn", "util::generic_fn::<T>"]), "schemars"))
        else:
            s.ty = wrap
            s.attrs.append(("bound", 'bound = "T: JsonSchema + Clone"', "schemars"))
            it.uses = ["%s<i32>" % it.name]


def decorate(rng, it, amount=1.0):
    for s in it.slots():
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if rng.random() < amount else 0):
            r = rng.random()
            if r < 0.4 or it.kind == "repr":
                a = common(rng, s)
            elif r < 0.75 or s.pos != "field":
                a = serdeish(rng, it, s)
            else:
                a = validation(rng, s) if not s.has("flatten") else None
            if a:
                s.attrs.append(a)
        rng.shuffle(s.attrs)
    if it.needs_default and (it.generics or it.head.has("transparent")):
        it.head.drop("default")
        it.needs_default = False
    if it.head.has("transparent") and (len(it.fields) != 1 or it.fields[0][0].has("skip", "skip_serializing", "skip_deserializing", "default") or "PhantomData" in it.fields[0][0].ty):
        it.head.drop("transparent")
    unset(rng, it)
    return it


def unset(rng, it):
    """Unsetting of a serde attribute."""
    for s in it.slots():
        if rng.random() < 0.05 and s.pos == "field" and not s.has("rename", "with", "schema_with", "flatten"):
            k = rng.choice(["rename", "default"])
            if s.has(k):
                continue
            s.attrs += [(k, 'rename = "gone%d"' % rng.randint(0, 999) if k == "rename" else 'default = "NoSuchFn"', "serde"), ("!" + k, "!" + k, "schemars")]


# ---------------------------------------------------------------- misuses
NEEDS_STR = {"container": ["rename", "rename_all", "crate", "with", "schema_with", "from", "try_from", "into", "bound", "tag", "remote"],
             "variant": ["rename", "rename_all", "with", "schema_with"],
             "field": ["rename", "with", "schema_with", "skip_serializing_if"]}
FLAGS = {"container": ["inline", "deny_unknown_fields", "transparent", "untagged"], "variant": ["skip", "skip_serializing", "skip_deserializing", "untagged"],
         "field": ["skip", "skip_serializing", "skip_deserializing", "flatten", "required", "email", "url", "ip", "ipv4", "ipv6"]}
KNOWN = {"container": {"rename", "rename_all", "rename_all_fields", "deny_unknown_fields", "tag", "content", "untagged", "default", "remote", "transparent", "into", "from", "try_from", "bound", "with", "schema_with", "crate", "inline", "_unstable_ref_variants"},
         "variant": {"rename", "rename_all", "skip", "skip_serializing", "skip_deserializing", "untagged", "with", "schema_with", "bound"},
         "field": {"rename", "default", "skip", "skip_serializing", "skip_serializing_if", "skip_deserializing", "flatten", "with", "schema_with", "bound",
                   "length", "range", "pattern", "regex", "contains", "email", "url", "ip", "ipv4", "ipv6", "required", "inner"}}
COMMON = {"title", "description", "example", "extend", "transform"}
SAMPLE = {"rename": 'rename = "x_renamed"', "rename_all": 'rename_all = "camelCase"', "rename_all_fields": 'rename_all_fields = "camelCase"', "tag": 'tag = "ttt"', "content": 'content = "ccc"',
          "default": "default", "remote": 'remote = "Sub"', "into": 'into = "String"', "from": 'from = "String"', "try_from": 'try_from = "String"', "bound": 'bound = ""', "with": 'with = "String"',
          "schema_with": 'schema_with = "util::schema_fn"', "crate": 'crate = "schemars"', "skip_serializing_if": 'skip_serializing_if = "util::is_dflt"', "length": "length(min = 1)", "range": "range(min = 1)",
          "pattern": 'pattern("a")', "regex": 'regex(pattern = "a")', "contains": 'contains("a")', "inner": "inner(length(min = 1))", "title": 'title = "x"', "description": 'description = "y"',
          "example": "example = 1", "extend": 'extend("zz" = 1)', "transform": "transform = util::touch"}


def sample(k):
    return SAMPLE.get(k, k)


def nested(rng, text):
    """Possibly puts a validation item inside `inner`."""
    while rng.random() < 0.3:
        text = "inner(%s)" % text
    return text


def misuse(rng, it, slot):
    """Returns (class, keyword, [attribute texts for the slot], {keywords to drop first}) or None."""
    pos = slot.pos
    cls = rng.choice(["unknown", "unknown", "unknown-nested", "duplicate", "duplicate", "duplicate", "malformed", "malformed", "malformed", "exclusive", "exclusive", "unset", "name-format", "wrong-data", "syntax"])
    if cls == "unknown":
        pool = ["foo", "titel", "Rename", "rename_al", "minimum", "doc", "deprecated", "deserialize_with", "serialize_with", "alias", "other", "borrow", "getter", "expecting", "variant_identifier", "validate", "serde",
                "schemars", "a::path", "schemars::title", "r#type", "examples", "format", "nullable", "is_option", "min", "max", "description_", "ignore", "phone", "nested", "custom", "skip_all", "dive"]
        pool += sorted((KNOWN["container"] | KNOWN["variant"] | KNOWN["field"]) - KNOWN[pos])
        k = rng.choice(pool)
        t = rng.choice([k, '%s = "String"' % k, "%s(a = 1)" % k, "%s = 1" % k]) if k not in SAMPLE and k not in sum(FLAGS.values(), []) else sample(k)
        return cls, k, [t], set()
    if cls == "unknown-nested":
        if pos != "field":
            return None
        k = rng.choice(["length", "range", "regex", "contains", "inner", "inner", "inner"])
        bad = rng.choice(["foo", "foo = 1", "message = \"m\"", "code = \"c\"", "a::b = 1"])
        if k in ("length", "range"):
            t = "%s(%s)" % (k, rng.choice(["min = 1, " + bad, bad, bad + ", max = 2"]))
            t, drop = nested(rng, t), {k, "inner"}
        elif k in ("regex", "contains"):
            t = "%s(pattern = \"a\", %s)" % (k, bad)
            if k == "regex" and rng.random() < 0.4:
                t = rng.choice(["regex(path = RE)", "regex(pattern = \"a\", path = \"RE\")", "regex(path = \"RE\", pattern = \"a\")"])
            t, drop = nested(rng, t), {"regex", "pattern", "contains", "inner"}
        else:
            w = rng.choice(["foo", "foo(x = 1)", 'title = "x"', 'description = "x"', "example = 1", "inline", 'extend("a" = 1)', 'with = "String"', 'schema_with = "util::schema_fn"',
                            "skip", "flatten", 'rename = "x"', "default", "a::b", "!skip", "tag = \"x\"", "untagged", "transform = util::touch"])
            t, drop = nested(rng, "inner(%s)" % rng.choice([w, "length(min = 1), " + w, w + ", email"])), {"inner"}
        return cls, k, [t], drop
    if cls == "duplicate":
        ks = sorted((KNOWN[pos] | {"title", "description"}) - {"bound", "_unstable_ref_variants"})
        if pos == "container":
            ks = [k for k in ks if k not in ("tag", "content", "untagged", "rename_all_fields", "remote", "into", "transparent") and (k != "default" or it.kind == "struct")] + \
                (["tag", "content", "untagged", "rename_all_fields"] if it.kind == "enum" else [])
        if pos == "variant":
            ks = [k for k in ks if k != "untagged" or slot.last]
        if rng.random() < 0.2:
            return cls, "extend", [rng.choice(['extend("dup" = 1, "dup" = 2)', 'extend("dup" = 1), extend("dup" = 1)', 'extend("dup" = 1, "other" = 2), extend("third" = 3, "dup" = null)'])], set()
        if pos == "field" and rng.random() < 0.35:
            k = rng.choice(["length", "range"])
            w = rng.choice(["min = 1, min = 2", "max = 1, max = 1", "equal = 1, equal = 2", "min = 1, max = 2, min = 1"])
            t = nested(rng, rng.choice(["%s(%s)" % (k, w), "regex(pattern = \"a\", pattern = \"b\")", "contains(pattern = \"a\", pattern = \"b\")",
                                       "inner(length(min = 1)), inner(length(max = 2))", "inner(length(min = 1), length(max = 3))", "inner(email, email)", "inner(inner(pattern(\"a\"), pattern(\"b\")))"]))
            return cls, k, [t], {"length", "range", "regex", "pattern", "contains", "inner"}
        k = rng.choice(ks)
        a = sample(k)
        b = {"rename": 'rename = "y_other"', "rename_all": 'rename_all = "UPPERCASE"', "title": "title = util::TEXT", "length": "length(max = 9)", "range": "range(max = 9)", "with": 'with = "Sub"',
             "inner": None}.get(k, a)
        if b is None:
            return None
        if k == "default":
            b = rng.choice([a, 'default = "util::dflt"'])
        drop = {k, "!" + k} | ({"with", "schema_with"} if k in ("with", "schema_with") else set()) | ({"from", "try_from", "transparent"} if k in ("from", "try_from") else set()) | \
            ({"regex", "pattern", "contains"} if k in ("regex", "pattern", "contains") else set()) | ({"email", "url", "ip", "ipv4", "ipv6"} if k in ("email", "url", "ip", "ipv4", "ipv6") else set())
        out = [a, b]
        if k == "content":
            out = ['tag = "ttt"'] + out
            drop |= {"tag", "untagged"}
        if k in ("tag", "untagged") and pos == "container":
            drop |= {"tag", "content", "untagged"}
        return cls, k, out, drop
    if cls == "malformed":
        if rng.random() < 0.5:
            r = rng.random()
            if r < 0.4:
                k = rng.choice(NEEDS_STR[pos])
                if k == "tag" and it.kind != "enum":
                    return None
                if k == "bound" or k == "remote":
                    t = rng.choice(["%s = 5", "%s"]) % k
                else:
                    t = rng.choice(["%s = 5", "%s", "%s(String)", "%s = not_a_literal", "%s = b\"bytes\""]) % k
                return cls, k, [t], {k, "with", "schema_with", "from", "try_from", "into", "transparent", "tag", "untagged", "content"}
            if r < 0.7:
                k = rng.choice(FLAGS[pos])
                t = rng.choice(["%s = true", "%s(true)", "%s = \"x\"", "%s()"]) % k
                return cls, k, [t], {k, "tag", "content", "untagged"} | set(FLAGS["field"])
            k = rng.choice(["title", "description", "example", "extend", "transform"])
            t = {"title": ["title", 'title("x")'], "description": ["description", 'description("x", "y")'],
                 "example": ["example", "example(1)", 'example = "path"', 'example = "util::eg"', 'example = "::util::eg"', 'example = "Vec::<i32>::new"'],
                 "extend": ["extend", "extend = 1", "extend(a = 1)", 'extend("a")', 'extend("a" =)', 'extend("a" = 1 "b" = 2)', "extend(1 = 2)", 'extend("a": 1)', 'extend("x" = 1, "y")'],
                 "transform": ["transform", "transform(util::touch)", 'transform = "util::touch"', 'transform = "util::Touch(3)"', 'transform = "not an ("', 'transform = ""', 'transform = "a b"']}[k]
            # extension values are not expanded where they are not used
            if slot.is_repr or any(x.has("skip", "skip_serializing", "skip_deserializing", "with", "schema_with", "flatten", "from", "try_from", "into", "transparent") for x in it.slots()):
                t = [x for x in t if "1 \"b" not in x]
            return cls, k, [rng.choice(t)], {k}
        if pos == "field" and rng.random() < 0.7:
            k = rng.choice(["length", "range", "pattern", "regex", "contains", "inner"])
            t = {"length": ["length", "length = 5", "length(5)", "length(min)", "length(min(1))", 'length(min = "1 +")', 'length(max = "")', "length(min = 1 max = 2)", "length(..)"],
                 "range": ["range", "range = 5", "range(1, 2)", "range(min)", "range(max(1))", 'range(min = "a b")', "range(min = 1; max = 2)", "range(0..3)"],
                 "pattern": ["pattern", 'pattern = "a"', "pattern()", 'pattern("a", "b")', 'pattern(a = "b", c)'],
                 "regex": ["regex", 'regex = "a"', "regex()", 'regex("a")', "regex(pattern)", 'regex(pattern("a"))'],
                 "contains": ["contains", 'contains = "a"', "contains()", 'contains("a", "b")', "contains(pattern =)"],
                 "inner": ["inner", "inner = 1", 'inner = "length"', 'inner("x")', "inner(length)", "inner(email = 1)", "inner(pattern())", "inner(length(min = 1) range(min = 1))"]}[k]
            return cls, k, [rng.choice(t)], {"length", "range", "pattern", "regex", "contains", "inner"}
        k, t = rng.choice({
            "container": [("rename_all", 'rename_all = "Bogus-Case"'), ("rename_all", 'rename_all(serialize = "nope")'), ("crate", 'crate = "not a path"'), ("with", 'with = "Vec<"'), ("schema_with", 'schema_with = "a b"'),
                          ("from", 'from = "1 + 1"'), ("into", 'into = "Vec<"'), ("bound", 'bound = "T JsonSchema"'), ("bound", 'bound = "not a bound!"'), ("crate", 'crate = ""'), ("with", 'with = ""')],
            "variant": [("rename_all", 'rename_all = "Bogus-Case"'), ("rename", 'rename(serialise = "a")'), ("with", 'with = "Vec<"'), ("schema_with", 'schema_with = "1"'), ("rename", 'rename(serialize = 1)')],
            "field": [("rename", 'rename(serialise = "a")'), ("with", 'with = "Vec<"'), ("schema_with", 'schema_with = "a(b)"'), ("default", "default = 0"), ("default", 'default = "a b"'), ("default", "default(x)"),
                      ("skip_serializing_if", 'skip_serializing_if = "|x| x"'), ("bound", 'bound = "T JsonSchema"'), ("rename", 'rename(serialize = 1)'), ("with", 'with = "!!"'), ("schema_with", 'schema_with = ""')]}[pos])
        return cls, k, [t], {k, "with", "schema_with", "from", "try_from", "transparent", "!" + k}
    if cls == "exclusive":
        if pos == "field" and rng.random() < 0.8:
            r = rng.random()
            if r < 0.3:
                ab = rng.sample(["email", "url", "ip", "ipv4", "ipv6"], 2)
                if rng.random() < 0.3:
                    return cls, "format", ["inner(%s)" % ", ".join(ab)], {"inner"}
                return cls, "format", ab, {"email", "url", "ip", "ipv4", "ipv6"}
            if r < 0.6:
                ab = rng.sample(['pattern("a")', 'regex(pattern = "b")', 'contains("c")'], 2)
                if rng.random() < 0.3:
                    return cls, "pattern", ["inner(%s)" % ", ".join(ab)], {"inner"}
                return cls, "pattern", ab, {"pattern", "regex", "contains"}
            if r < 0.85:
                k = rng.choice(["length", "range"])
                return cls, k, [nested(rng, "%s(%s)" % (k, rng.choice(["min = 1, equal = 2", "equal = 1, max = 3", "max = 1, equal = 1", "equal = 1, min = 0", "min = 1, max = 3, equal = 2"])))], {k, "inner"}
            return cls, "with", rng.sample(['with = "String"', 'schema_with = "util::schema_fn"'], 2), {"with", "schema_with"}
        r = rng.random()
        if r < 0.5 or pos != "container":
            return cls, "with", rng.sample(['with = "String"', 'schema_with = "util::schema_fn"'], 2), {"with", "schema_with"}
        drop = {"from", "try_from", "transparent", "into", "tag", "content", "untagged", "default", "with", "schema_with"}
        if r < 0.7:
            return cls, "from", ['from = "String"', 'try_from = "String"'], drop
        if it.kind == "enum":
            return cls, "tag", rng.choice([["untagged", 'tag = "t"'], ['content = "c"'], ["untagged", 'content = "c"'], ['tag = "same"', 'content = "same"'], ["untagged", 'tag = "t"', 'content = "c"']]), drop
        if it.kind in ("tuple", "struct") and len(it.fields) == 1:
            return cls, "transparent", ["transparent", rng.choice(['from = "String"', 'try_from = "String"', 'into = "String"'])], drop
        return None
    if cls == "unset":
        k = rng.choice(sorted(KNOWN[pos] - {"_unstable_ref_variants"}) + ["foo", "title", "length", "a::b"])
        if any(a == k for a, _, _ in slot.attrs):
            slot.drop(k)
        r = rng.random()
        if r < 0.4:
            return cls, k, ["!" + k], {k, "!" + k, "with", "schema_with"}
        if r < 0.7 and k in SAMPLE and pos == "field":
            return cls, k, [sample(k), "!" + k], {k, "!" + k, "with", "schema_with", "pattern", "regex", "contains"}
        return cls, k, rng.choice([["!%s = 1" % k], ["!%s(x)" % k], ["!"], ["!!" + k]]), {k, "!" + k}
    if cls == "name-format":
        if pos != "container":
            return None
        bad = rng.choice(["{X}", "A{", "A}{%s}" % item_param(it), "{%s:?}" % item_param(it), "{}", "{0}", "{%s}}" % item_param(it), "{ %s }" % item_param(it), "{{{%s" % item_param(it), "{%s::Name}" % item_param(it), "{'a}", "{i32}"])
        return cls, "rename", ['rename = "%s"' % bad], {"rename", "!rename"}
    if cls == "wrong-data":
        if pos == "container":
            o = []
            if it.kind == "enum":
                o += [("default", ["default"]), ("default", ['default = "util::dflt"']), ("transparent", ["transparent"])]
            elif it.kind != "repr":
                o += [("rename_all_fields", ['rename_all_fields = "camelCase"']), ("untagged", ["untagged"]), ("content", ['content = "x"']), ("_unstable_ref_variants", ["_unstable_ref_variants"])]
                if it.kind == "tuple":
                    o += [("tag", ['tag = "x"'])]
                if it.kind == "unit" or len(it.fields) > 1:
                    o += [("transparent", ["transparent"])]
            if not o:
                return None
            k, t = rng.choice(o)
            if k == "transparent" and any(f[0].has("skip", "skip_serializing", "skip_deserializing", "default") or "PhantomData" in f[0].ty for f in it.fields):
                return None
            return cls, k, t, {"from", "try_from", "into", "tag", "content", "untagged", "default", "with", "schema_with", k}
        if pos == "field" and not slot.named:
            if slot.in_variant and rng.random() < 0.5:
                return None
            return cls, "flatten", ["flatten"], {"flatten", "with", "schema_with", "skip", "default"}
        return None
    # syntax
    return cls, "syntax", rng.choice([['title "x"'], ["title = "], ["= 1"], ['"literal"'], ["5"], ["title = \"a\" description = \"b\""], ["title; inline"], ["[title]"], ["@foo"], ["'a"]]), {"title", "description"}


def item_param(it):
    ps = [u for d, u in it.generics if not d.startswith("'")]
    return ps[0] if ps else "T"


RAW = ["#[schemars]", '#[schemars = "x"]', "#[schemars{title}]"]


def misused(rng, name):
    """(item, slot, class, keyword, description)"""
    while True:
        it = decorate(rng, base(rng, name), rng.choice([0.0, 0.5, 1.0]))
        slots = it.slots()
        slot = rng.choice(slots) if rng.random() < 0.7 else rng.choice([s for s in slots if s.pos == rng.choice(["container", "variant", "field"])] or slots)
        if rng.random() < 0.02:
            it.raw_before[id(slot)] = [rng.choice(RAW[:3])]
            return it, slot, "malformed", "list", it.raw_before[id(slot)][0]
        m = misuse(rng, it, slot)
        if not m:
            continue
        cls, kw, texts, drop = m
        slot.drop(*drop)
        if cls == "duplicate" and kw == "content":
            pass
        at = rng.randint(0, len(slot.attrs))
        new = [(t.split("(")[0].split(" ")[0], t, "schemars") for t in texts]
        if rng.random() < 0.5:
            slot.attrs[at:at] = new
        else:
            for n in new:
                slot.attrs.insert(at, n)
                at = rng.randint(at + 1, len(slot.attrs))
        if kw in ("flatten", "transparent", "with", "schema_with"):
            it.head.drop("deny_unknown_fields")
        return it, slot, cls, kw, ", ".join(texts)


# misuses found by the type checker or name resolution of the generated code
TYPE_ERRORS = [
    ("container", "title = 5"), ("container", "description = true"), ("container", "transform = 5"), ("container", "transform = util::eg"), ("container", "example = NoSchema"), ("container", 'extend("a" = NoSchema)'),
    ("container", 'with = "NoSchema"'), ("container", 'schema_with = "util::eg"'), ("container", 'from = "NoSchema"'), ("container", 'try_from = "NoSchema"'), ("container", 'into = "NoSchema"'),
    ("field", "title = 5"), ("field", "description = util::eg()"), ("field", "transform = util::eg"), ("field", "example = NoSchema"), ("field", 'extend("a" = NoSchema)'), ("field", 'with = "NoSchema"'),
    ("field", 'schema_with = "util::eg"'), ("field", 'schema_with = "util::TEXT"'), ("field", 'default = "util::eg"'), ("field", 'default = "util::touch"'), ("field", "length(min = NoSchema)"), ("field", "range(min = NoSchema)"),
    ("field", "pattern(NoSchema)"), ("field", "regex(pattern = NoSchema)"), ("field", "contains(NoSchema)"), ("field", "inner(length(min = NoSchema))"), ("field", "inner(pattern(NoSchema))"),
    ("variant", "title = 5"), ("variant", "transform = 5"), ("variant", "example = NoSchema"), ("variant", 'extend("a" = NoSchema)'), ("variant", 'with = "NoSchema"'), ("variant", 'schema_with = "util::eg"'),
    ("fieldty", "NoSchema"), ("fieldty", "Vec<NoSchema>"), ("fieldty", "Option<NoSchema>"), ("container-default", "default"), ("field-default", "default"), ("bound", 'bound = ""'),
]
RESOLVE_ERRORS = [
    ("container", 'with = "Nope"'), ("container", 'schema_with = "nope"'), ("container", "transform = nope"), ("container", 'from = "Nope"'), ("container", 'into = "Nope"'), ("container", 'crate = "nope"'), ("container", "title = NOPE"),
    ("field", 'with = "Nope"'), ("field", 'schema_with = "nope"'), ("field", "transform = nope"), ("field", 'default = "nope"'), ("field", "length(min = NOPE)"), ("field", "example = nope()"), ("field", "pattern(NOPE)"),
    ("variant", 'with = "Nope"'), ("variant", 'schema_with = "nope"'), ("variant", "transform = nope"), ("variant", 'extend("a" = NOPE)'), ("variant", "description = NOPE"),
]


def late(rng, name, spec):
    """An item with one error the generated code must not hide."""
    pos, text = spec
    for _ in range(200):
        it = base(rng, name)
        if it.kind == "repr" or it.generics:
            continue
        for s in it.slots():      # nothing that could keep the generated code from using the slot
            s.attrs = [a for a in s.attrs if a[0] in ("tag", "content", "untagged")]
        if pos == "container-default":
            if it.kind != "struct":
                continue
            it.head.attrs.append(("default", "default", "schemars"))
            return it, it.head
        if pos == "field-default":
            c = [s for s in it.slots() if s.pos == "field" and s.named]
            if not c:
                continue
            s = rng.choice(c)
            s.ty = "Result<i32, String>"
            s.attrs.append(("default", "default", "schemars"))
            return it, s
        if pos == "bound":
            if it.kind != "struct":
                continue
            it.generics = [("T", "T")]
            it.fields[0][0].ty = "Vec<T>"
            it.head.attrs.append(("bound", text, "schemars"))
            return it, it.head
        if pos == "fieldty":
            c = [s for s in it.slots() if s.pos == "field"]
            if not c:
                continue
            s = rng.choice(c)
            s.ty = text
            return it, s
        c = [s for s in it.slots() if s.pos == pos]
        if pos == "container" and it.head.has("untagged", "tag"):
            continue
        if text.startswith("default"):
            c = [s for s in c if s.named and s.ty != "Vec<i32>"]
        if text.startswith("inner"):
            c = [s for s in c if s.ty.startswith("Vec<S")]
        if not c:
            continue
        s = rng.choice(c)
        s.attrs.append((text.split("(")[0].split(" ")[0], text, "schemars"))
        return it, s
    return None


# ---------------------------------------------------------------- comparison with serde's derive
def serde_pool(rng, it, slot):
    if slot.pos == "container":
        return rng.choice([
            'rename_all = "camelCase"', 'rename_all = "kebab"', "rename_all", 'rename_all(serialize = "UPPERCASE")', 'rename_all(serialize = "UPPERCASE", serialize = "lowercase")', 'rename_all_fields = "UPPERCASE"',
            "rename_all_fields = 1", "deny_unknown_fields", "deny_unknown_fields = true", 'tag = "t"', 'tag = "f0"', 'content = "c"', 'content = "t"', "tag", "untagged", 'untagged = "x"', "default", 'default = "util::dflt"',
            "default = 1", "transparent", 'from = "String"', 'from = "Vec<"', 'try_from = "String"', 'into = "String"', "into = String", "transparent(1)", 'tag("t")'])
    if slot.pos == "variant":
        return rng.choice(['rename = "a"', "rename", "rename = 1", 'rename(serialize = "a")', 'rename(serialize = "a", serialize = "b")', 'rename(foo = "a")', 'rename_all = "camelCase"', "rename_all = camelCase",
                           "skip", "skip = true", "skip_serializing", "skip_deserializing", "untagged", "untagged()", "skip()"])
    return rng.choice(['rename = "a"', "rename", "rename = 1", 'rename(serialize = "a")', 'rename(deserialize = "a", deserialize = "b")', 'rename(foo = "a")', "default", 'default = "util::dflt"', "default = 1", 'default = "a b"',
                       "default()", "skip", "skip = true", "skip_serializing", "skip_deserializing", "flatten", "flatten = 1", 'skip_serializing_if = "util::is_dflt"', "skip_serializing_if", 'skip_serializing_if = ""'])


def serde_pair(rng, name):
    it = base(rng, name)
    while it.kind == "repr" or it.generics:
        it = base(rng, name)
    for s in it.slots():
        s.attrs = [a for a in s.attrs if rng.random() < 0.8]
    slots = it.slots()
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        s = rng.choice(slots) if rng.random() < 0.7 else it.head
        t = serde_pool(rng, it, s)
        s.attrs.append((t.split("(")[0].split(" ")[0], t, "serde"))
    return it
