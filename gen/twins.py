"""Twin programs: the same random types rendered twice, in `mod a` (plain serde spelling) and
`mod b` (another spelling that must give the very same schemas), compared at run time."""
import os, random
import corpus
from corpus import Gen, T, q

PRELUDE = """#![allow(warnings)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde::{Serialize, Serializer};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::*;
use std::marker::PhantomData;
use std::num::Wrapping;
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};
use vh::gen::{Arb, Opaque};
use vh::twins::Top;
use vh::Rng;

#[derive(JsonSchema)]
#[serde(transparent)]
pub struct Tr<X>(pub X);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct TrN<X> { #[schemars(skip)] pub p: PhantomData<u8>, pub value: X }
#[derive(JsonSchema)]
#[schemars(with = "X")]
pub struct TrW<X> { pub value: Opaque<X> }
impl<X: Arb> Arb for Tr<X> { fn arb(r: &mut Rng) -> Self { Tr(X::arb(r)) } }
impl<X: Arb> Arb for TrN<X> { fn arb(r: &mut Rng) -> Self { TrN { p: PhantomData, value: X::arb(r) } } }
impl<X: Arb> Arb for TrW<X> { fn arb(r: &mut Rng) -> Self { TrW { value: Arb::arb(r) } } }
impl<X: Default> Default for Tr<X> { fn default() -> Self { Tr(X::default()) } }
impl<X: Default> Default for TrN<X> { fn default() -> Self { TrN { p: PhantomData, value: X::default() } } }
impl<X: Default> Default for TrW<X> { fn default() -> Self { TrW { value: Opaque(X::default()) } } }
impl<X: Serialize> Serialize for Tr<X> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
impl<X: Serialize> Serialize for TrN<X> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.value.serialize(s) } }
impl<X: Serialize> Serialize for TrW<X> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.value.serialize(s) } }

"""


def keyword(item):
    for i, ch in enumerate(item):
        if not (ch.isalnum() or ch == "_"):
            return item[:i]
    return item


class Twin(Gen):
    """Only JsonSchema is derived; Serialize (needed for default values) is a fixed stub."""

    def derives(self, d):
        return "#[derive(JsonSchema)]\n"

    def emit(self, d, head, cattrs, text, arb, params):
        super().emit(d, head, cattrs, text, arb, params)
        g = self.tparams(params)
        self.out.append(
            "impl%s Serialize for %s%s { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(%s) } }\n"
            "impl%s Clone for %s%s { fn clone(&self) -> Self { unimplemented!() } }\n" % (g, d.name, g, q("stub-" + d.name.lower()), g, d.name, g))

    def body(self):
        # conversion impls are only needed by serde
        return "\n".join(x for x in self.out if not x.startswith(("impl From<", "impl TryFrom<", "impl Into<")))

    def module(self, name, tops):
        s = "pub mod %s {\nuse super::*;\n%s\npub fn tops() -> Vec<Top> { vec![\n" % (name, self.body())
        for i, ty, label in tops:
            s += "    Top::new::<%s>(%d, %s),\n" % (ty, i, q(label))
        return s + "] }\n}\n"

    def tops(self):
        return [(i, d.rust_name, d.rust_name) for i, d in enumerate(self.roots)]


RULES = corpus.FIELD_RULES


class Schemars(Twin):
    """C18: serde attributes respelled as schemars ones, with overridden and negated decoys."""

    def __init__(self, seed, opts=None):
        super().__init__(seed, opts)
        self.x = random.Random(seed ^ 0x5bd1e995)
        # per program: how often each spelling is used
        self.w = self.x.choice([[1, 1, 1], [0, 1, 0], [0, 1, 1], [1, 2, 3], [2, 1, 0]])
        self.decoys = self.x.choice([0.0, 0.15, 0.3])

    def decoy(self, kw):
        x = self.x
        if kw == "rename":
            return x.choice(['rename = "decoy"', 'rename(serialize = "decoy_s")', 'rename(deserialize = "decoy_d")',
                             'rename(serialize = "decoy_s", deserialize = "decoy_d")'])
        if kw in ("rename_all", "rename_all_fields"):
            return x.choice(['%s = "%s"', '%s(serialize = "%s")', '%s(deserialize = "%s")']) % (kw, x.choice(RULES))
        if kw == "default":
            return x.choice(["default", 'default = "nonexistent::path"'])
        if kw in ("skip_serializing_if", "serialize_with", "with"):
            return '%s = "nonexistent::path"' % kw
        if kw in ("tag", "content"):
            return '%s = "decoy_%s"' % (kw, kw)
        if kw in ("from", "try_from", "into"):
            return '%s = "Nonexistent"' % kw
        return kw  # flags

    def attr_text(self, attrs, level, indent="", nl="\n"):
        x = self.x
        serde, sch, kws = [], [], set()
        for item in attrs:
            kw = keyword(item)
            kws.add(kw)
            m = x.choices("sxb", self.w)[0]
            if m == "s" or (kw == "rename" and "{" in item):  # schemars' own rename reads {..} as a generic argument
                serde.append(item)
            else:
                sch.append(item)
                if m == "b":
                    serde.append(self.decoy(kw))
                if kw == "skip" and x.random() < 0.4:
                    serde.append(x.choice(["skip_serializing", "skip_deserializing"]))
        used = {keyword(i) for i in serde}
        cands = {"field": ["rename", "skip", "skip_serializing", "skip_deserializing", "skip_serializing_if", "default", "flatten", "with", "serialize_with"],
                 "variant": ["rename", "rename_all", "skip", "skip_serializing", "skip_deserializing", "untagged"],
                 "container": ["rename", "rename_all", "rename_all_fields", "deny_unknown_fields", "default", "tag", "content", "untagged", "from",
                               "try_from", "into", "transparent"]}[level]
        for kw in cands:
            if kw not in kws and kw not in used and x.random() < self.decoys:
                serde.append(self.decoy(kw))
                sch.append("!" + kw)
        if x.random() < self.decoys * 0.5 and not any(keyword(i) == "bound" for i in serde) and level != "variant":
            serde.append('bound = "Nonexistent: Missing"')
        out = []
        for name, items in (("serde", serde), ("schemars", sch)):
            x.shuffle(items)
            k = x.randint(0, len(items)) if x.random() < 0.4 else len(items)
            for part in (items[:k], items[k:]):
                if part:
                    out.append("%s#[%s(%s)]%s" % (indent, name, ", ".join(part), nl))
        x.shuffle(out)
        return "".join(out)


class Wrapped(Twin):
    """C20: types wrapped in pass-through types, redirected with `with`/`schema_with`/remote."""

    def __init__(self, seed, opts=None):
        super().__init__(seed, opts)
        self.x = random.Random(seed ^ 0x2545f491)
        self.rate = self.x.choice([0.1, 0.3, 0.5])
        self.withs = self.x.choice([0.0, 0.2, 0.4])
        self.nfn = 0
        self.remote = {}

    def wrap(self, t):
        x = self.x
        text = t.text()
        if t.k == "opt" and x.random() < self.rate:
            text = x.choice(["std::rc::Weak<%s>", "std::sync::Weak<%s>"]) % t.a[0].rust()
        n = 0
        while x.random() < self.rate * 0.7 and n < 3:
            n += 1
            ws = ["Box<%s>", "Rc<%s>", "Arc<%s>", "RefCell<%s>", "Mutex<%s>", "RwLock<%s>", "Wrapping<%s>", "Reverse<%s>", "Tr<%s>", "TrN<%s>", "TrW<%s>"]
            if not t.has_param():
                ws += ["&'static %s", "&'static mut %s"]
                if not any(w in text for w in ("Mutex", "RwLock", "&'static mut", "Opaque", "Tr<", "TrN", "TrW")):
                    ws += ["Cow<'static, %s>"] * 2
                if n == 1 and t.k == "prim" and t.a[0] not in ("String",):
                    ws += ["Cell<%s>"] * 3
            text = x.choice(ws) % text
        return text

    def field_text(self, attrs, t, indent="", nl="\n"):
        x = self.x
        kws = {keyword(a) for a in attrs}
        if ("default" in attrs or kws & {"skip", "skip_deserializing"}) and not any(a.startswith("default =") for a in attrs) and "&" in t.rust():
            t._rust = t.plain()  # references have no Default
        ty = t.rust()
        a = self.attr_text(attrs, "field", indent, nl)
        if not kws & {"default", "skip_deserializing", "skip", "skip_serializing_if"} and not self.cur.default and not t.has_param() and x.random() < self.withs:
            k = x.random()
            if k < 0.4:
                a += "%s#[schemars(with = %s)]%s" % (indent, q(ty), nl)
                ty = "Opaque<%s>" % ty
            elif k < 0.7:
                self.nfn += 1
                self.out.append("type Alias%d = %s;\n" % (self.nfn, ty))
                a += "%s#[serde(with = \"Alias%d\")]%s" % (indent, self.nfn, nl)
                ty = "Opaque<%s>" % ty
            elif not self.maybe_opt(t) and "flatten" not in kws:
                self.nfn += 1
                fn = "schema_fn_%d" % self.nfn
                self.out.append("fn %s(g: &mut SchemaGenerator) -> Schema { g.subschema_for::<%s>() }\n" % (fn, ty))
                a += "%s#[schemars(schema_with = %s)]%s" % (indent, q(fn), nl)
                ty = "Opaque<%s>" % ty
        return a, ty

    def attr_text(self, attrs, level, indent="", nl="\n"):
        s = super().attr_text(attrs, level, indent, nl)
        d = self.cur
        if level == "container" and not getattr(d, "params", ()) and d.from_ is None and d.into is None and not d.transparent \
                and not any(keyword(a) == "rename" for a in attrs) and self.x.random() < 0.2:
            self.remote[d.name] = d.name + "Def"
            s += "%s#[%s(remote = \"elsewhere::%s\")]%s" % (indent, self.x.choice(["serde", "schemars"]), d.name, nl)
        return s

    def body(self):
        import re
        s = super().body()
        s = re.sub(r"\"elsewhere::", "\"elsewhere::@", s)
        for a, b in self.remote.items():
            s = re.sub(r"(?<!@)\b%s\b" % a, b, s)
        return s.replace("elsewhere::@", "elsewhere::")

    def tops(self):
        out = []
        x = self.x
        for i, d in enumerate(self.roots):
            n = d.rust_name
            out.append((i, n, n))
            for w in x.sample(["Box<%s>", "&'static %s", "Arc<Mutex<%s>>", "RwLock<%s>", "Tr<%s>", "TrN<%s>", "TrW<%s>", "Cow<'static, %s>", "Reverse<%s>",
                               "Wrapping<%s>", "&'static mut %s", "RefCell<%s>", "Cell<%s>", "Rc<Box<%s>>"], 2):
                out.append((i, w % n, w % n))
        return out

    def module(self, name, tops):
        import re
        fixed = []
        for i, ty, label in tops:
            for a, b in self.remote.items():
                ty = re.sub(r"\b%s\b" % a, b, ty)
            fixed.append((i, ty, label))
        return super().module(name, fixed)


def write(dirpath, nbins, seed, per, cls, opts=None, prefix="w"):
    os.makedirs(dirpath, exist_ok=True)
    names = []
    for i in range(nbins):
        s = seed * 1000003 + i * 7919 + 29
        o = dict(nohash=True, redirect=0)
        o.update(opts or {})
        T.hook = None
        a = Twin(s, o)
        a.build(per)
        amod = a.module("a", a.tops())
        b = cls(s, o)
        if cls is Wrapped:
            T.hook = b.wrap
        b.build(per)
        bmod = b.module("b", b.tops())
        T.hook = None
        assert len(a.roots) == len(b.roots) and [d.name for d in a.roots] == [d.name for d in b.roots], "twins diverged"
        n = "%s%d" % (prefix, i)
        with open(os.path.join(dirpath, n + ".rs"), "w") as f:
            f.write(PRELUDE + amod + bmod + "fn main() { vh::twins::main(a::tops(), b::tops()); }\n")
        names.append(n)
    return names
