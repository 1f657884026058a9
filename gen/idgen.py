"""C21 programs: same-named generic templates in several modules, near-miss instantiations, and for
every type its expected identity (a normal form), expected name and whether it is inlined."""
import os, random
from corpus import q

NMOD = 3
CONSTS = {
    "usize": ["0", "1", "2", "10", "12", "21"], "i8": ["-1", "1", "0", "-128", "11"], "bool": ["true", "false"], "u64": ["0", "1", "18446744073709551615"],
    "char": ["'a'", "'A'", "','", "'<'", "'>'", "'1'", "'{'", "'é'"],
}


def const_text(ty, v):
    return v.strip("'") if ty == "char" else v


class Ty:
    def __init__(self, text, norm, name, inline):
        self.text, self.norm, self.name, self.inline = text, norm, name, inline


class Template:
    """A generic item of one module. params: [(ident, "type"|"marker"|const type)]."""
    def __init__(self, mod, ident, params, name_pat, irrelevant=()):
        self.mod, self.ident, self.params, self.name_pat, self.irrelevant = mod, ident, params, name_pat, irrelevant


class Ids:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.templates = []
        self.mods = ["" for _ in range(NMOD)]
        self.names = set()
        self.n = 0

    def uid(self):
        self.n += 1
        return self.n

    def declare(self):
        r = self.r
        # the same idents in every module, with different shapes
        shapes = []
        for i in range(7):
            kinds = r.choice([["type"], ["type", "type"], ["type", "const"], ["const"], ["const", "const"], ["const", "type", "type"], ["marker"], ["type", "marker"], ["type", "type", "type"]])
            params = []
            for j, k in enumerate(kinds):
                ident = r.choice(["A", "B", "T", "U", "Zeta"]) + str(j)
                params.append((ident, k if k != "const" else r.choice(list(CONSTS))))
            shapes.append(("%s%d" % (r.choice(["Pair", "Holder", "G", "X_"]), i), params))
        for m in range(NMOD):
            self.mods[m] += "#[derive(Clone, Copy)] pub struct Mk; #[derive(Clone, Copy)] pub struct Mk2;\n"
            self.mods[m] += "#[derive(JsonSchema, PartialEq, Eq, PartialOrd, Ord)] pub struct Plain { pub plain_m%d: u8 }\n" % m
            self.mods[m] += "#[derive(JsonSchema)] pub enum Choice { ChoiceM%d(u8), Rest }\n" % m
            self.mods[m] += "impl Tr for Plain { type Out = (u8, Outer%d); }\n" % m
            for ident, params in shapes:
                self.item(m, ident, params)
            self.item(m, "Ph", [("A0", "type"), ("B0", "phantom")])
            self.item(m, "Sk", [("A0", "type"), ("B0", "skipped")])
            self.mods[m] += "#[derive(JsonSchema)] pub struct As<A0: Tr> where A0::Out: JsonSchema { pub as_m%d: A0::Out, pub own: Vec<<A0 as Tr>::Out> }\n" % m
            self.templates.append(Template(m, "As", [("A0", "plain")], "As"))
            self.item(m, "Duo", [("A0", "usize"), ("B0", "usize")])
            self.item(m, "Trio", [("A0", "u64"), ("B0", "type"), ("C0", "u64")])
            self.item(m, "One", [("A0", "type")])
        for m in range(NMOD):
            self.templates += [Template(m, "Plain", [], "Plain"), Template(m, "Choice", [], "Choice")]

    def item(self, m, ident, params):
        r = self.r
        head, gens, fields = "", [], []
        types = [p for p, k in params if k in ("type", "marker")]
        rename = None
        for p, k in params:
            if k in CONSTS:
                gens.append("const %s: %s" % (p, k))
            else:
                gens.append(p)
        order = list(params)
        r.shuffle(order)
        for p, k in order:
            f = "f%d_m%d" % (self.uid(), m)
            if k == "type":
                x = r.choice(["%s", "Vec<%s>", "Option<%s>", "Box<%s>", "(u8, %s)", "BTreeMap<String, %s>", "[%s; 2]", "Option<Box<Vec<%s>>>", "Result<u8, %s>"])
                form = r.random()
                if form < 0.7:
                    fields.append("pub %s: %s" % (f, x % p))
                elif form < 0.85:
                    fields.append("#[schemars(with = %s)] pub %s: std::marker::PhantomData<%s>" % (q(x % p), f, p))
                else:
                    fields.append("#[serde(flatten)] pub %s: BTreeMap<String, %s>" % (f, p))
            elif k == "marker":
                fields.append("#[schemars(schema_with = %s)] pub %s: std::marker::PhantomData<%s>" % (q("crate::by_type_name::<%s>" % (r.choice(["%s", "(%s, u8)", "[%s; 1]", "Option<(%s,)>"]) % p)), f, p))
            elif k == "phantom":
                fields.append("pub %s: std::marker::PhantomData<%s>" % (f, p))
            elif k == "skipped":
                fields.append("#[serde(skip)] pub %s: Option<%s>" % (f, p))
            else:
                fields.append("#[schemars(extend(%s = %s))] pub %s: u8" % (q("x-" + p), p + ".to_string()" if k == "char" else p, f))
        name = ident
        usable = [p for p, k in params if k == "type" or k in CONSTS]
        if usable and r.random() < 0.4:
            use = r.sample(usable, r.randint(1, len(usable)))
            lit = r.choice(["Re", "Ünï-", "a.b/", "{{x}}", "_"])
            name = lit + r.choice(["_", "And", "}}", "of"]).join("{%s}" % p for p in use) + r.choice(["", "End"])
            # (two types of one module of one name are a known finding)
            while (m, name) in self.names:
                name = "N" + name
            self.names.add((m, name))
            head += "#[schemars(rename = %s)]\n" % q(name)
        elif r.random() < 0.15:
            name = "%sRenamed" % ident
            head += "#[%s(rename = %s)]\n" % (r.choice(["serde", "schemars"]), q(name))
            name = name.replace("{", "{{").replace("}", "}}")
        inline = r.random() < 0.12
        if inline:
            head += "#[schemars(inline)]\n"
        g = "<%s>" % ", ".join(gens) if gens else ""
        kind = r.choice(["struct", "struct", "tuple", "enum"])
        if kind == "struct":
            body = "pub struct %s%s { %s, pub id_%s_m%d: u8 }" % (ident, g, ", ".join(fields), ident.lower(), m)
        elif kind == "tuple" and not any("flatten" in f for f in fields):
            import re
            body = "pub struct %s%s(%s, #[schemars(extend(\"x-id\" = \"%s_m%d\"))] pub u8);" % (ident, g, ", ".join(re.sub(r"pub \w+: ", "pub ", f) for f in fields), ident, m)
        else:
            body = "pub enum %s%s { Only%sM%d { %s }, Rest }" % (ident, g, ident.replace("_", ""), m, ", ".join(f.replace("pub ", "") for f in fields))
        self.mods[m] += "#[derive(JsonSchema)]\n%s%s\n" % (head, body)
        t = Template(m, ident, params, name, [p for p, k in params if k in ("phantom", "skipped")])
        t.inline = inline
        self.templates.append(t)

    # ------------------------------------------------------------ types
    PRIMS = [("u8", "uint8"), ("u16", "uint16"), ("i32", "int32"), ("String", "string"), ("bool", "boolean"), ("f64", "double"), ("char", "Character"), ("usize", "uint"), ("()", "null"), ("serde_json::Value", "AnyValue")]

    def prim(self):
        t, n = self.r.choice(self.PRIMS)
        return Ty(t, n, n, True)

    def ty(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.15:
            if r.random() < 0.5:
                return self.prim()
            return self.inst([r.choice([t for t in self.templates if not t.params])], [])
        if r.random() < 0.6:
            t = r.choice(self.templates)
            return self.inst([t], [self.arg(k, depth - 1) for p, k in t.params])
        return self.builtin(r.choice(BUILTINS), lambda: self.ty(depth - 1))

    def arg(self, k, depth):
        r = self.r
        if k in CONSTS:
            v = r.choice(CONSTS[k])
            return (v, k)
        if k == "plain":
            return self.inst([r.choice([t for t in self.templates if t.ident == "Plain"])], [])
        if k == "marker":
            m = r.randrange(NMOD)
            if r.random() < 0.7:
                t = "m%d::%s" % (m, r.choice(["Mk", "Mk2"]))
                return Ty(t, "type " + t, None, True)
            x = self.ty(min(depth, 1))
            return Ty(x.text, "type " + x.text, None, True)
        return self.ty(depth)

    def inst(self, ts, args):
        t = ts[0]
        path = "m%d::%s" % (t.mod, t.ident)
        text, norm, sub = [], [], {}
        for (p, k), a in zip(t.params, args):
            if isinstance(a, tuple):
                text.append(a[0])
                norm.append(a[0])
                sub[p] = const_text(a[1], a[0])
            else:
                text.append(a.text)
                if p not in t.irrelevant:
                    norm.append(a.norm)
                sub[p] = a.name
        full = path + ("::<%s>" % ", ".join(text) if text else "")
        name, i, pat = "", 0, t.name_pat
        while i < len(pat):
            if pat[i:i + 2] in ("{{", "}}"):
                name += pat[i]
                i += 2
            elif pat[i] == "{":
                j = pat.index("}", i)
                name += sub[pat[i + 1:j]]
                i = j + 1
            else:
                name += pat[i]
                i += 1
        return Ty(full, path + "<" + ";".join(norm) + ">", name, getattr(t, "inline", False))

    def builtin(self, b, sub):
        r = self.r
        if b == "vec":
            a = sub()
            return Ty(r.choice(["Vec<%s>", "VecDeque<%s>", "LinkedList<%s>", "Box<[%s]>"]) % a.text, "[%s]" % a.norm, "Array_of_" + a.name, True)
        if b == "opt":
            a = sub()
            return Ty("Option<%s>" % a.text, "opt(%s)" % a.norm, "Nullable_" + a.name, True)
        if b == "set":
            a = sub()
            return Ty(r.choice(["BTreeSet<%s>", "HashSet<%s>"]) % a.text, "set(%s)" % a.norm, "Set_of_" + a.name, True)
        if b == "map":
            a = sub()
            k = r.choice([("String", "string"), ("u8", "uint8"), ("bool", "boolean"), ("char", "Character"), ("m0::Plain", "Plain"), ("m1::Plain", "Plain")])
            kn = k[0] if "::" not in k[0] else k[0] + "<>"
            # what is not a string, integer or ... key has the schema of the values only
            return Ty(r.choice(["BTreeMap<%s, %s>", "HashMap<%s, %s>"]) % (k[0], a.text), "map(%s,%s)" % (kn, a.norm),
                      "Map_of_" + a.name if k[0] == "String" else "Map_from_%s_to_%s" % (k[1], a.name), True)
        if b == "tuple":
            xs = [sub() for _ in range(r.choice([1, 2, 2, 3]))]
            return Ty("(%s,)" % ", ".join(x.text for x in xs), "tup(%s)" % ";".join(x.norm for x in xs), "Tuple_of_" + "_and_".join(x.name for x in xs), True)
        if b == "array":
            n = r.choice([0, 1, 2, 12, 21])
            a = sub()
            if n == 0:
                return Ty("[%s; 0]" % a.text, "[;0]", "EmptyArray", True)
            return Ty("[%s; %d]" % (a.text, n), "[%s;%d]" % (a.norm, n), "Array_size_%d_of_%s" % (n, a.name), True)
        if b == "result":
            x, y = sub(), sub()
            return Ty("Result<%s, %s>" % (x.text, y.text), "res(%s;%s)" % (x.norm, y.norm), "Result_of_%s_or_%s" % (x.name, y.name), False)
        if b == "range":
            a = sub()
            return Ty(r.choice(["std::ops::Range<%s>", "std::ops::RangeInclusive<%s>"]) % a.text, "range(%s)" % a.norm, "Range_of_" + a.name, False)
        if b == "bound":
            a = sub()
            return Ty("std::ops::Bound<%s>" % a.text, "bound(%s)" % a.norm, "Bound_of_" + a.name, False)
        if b == "arrayvec":
            n = r.choice([0, 1, 2, 12])
            a = sub()
            return Ty("vh::lib_types::ids_types::ArrayVec<%s, %d>" % (a.text, n), "av(%s;%d)" % (a.norm, n), "Array_up_to_size_%d_of_%s" % (n, a.name), True)
        if b == "either":
            x, y = sub(), sub()
            return Ty("vh::lib_types::ids_types::Either<%s, %s>" % (x.text, y.text), "either(%s;%s)" % (x.norm, y.norm), "Either_%s_or_%s" % (x.name, y.name), True)
        a = sub()
        w = r.choice(["Box<%s>", "Rc<%s>", "&'static %s", "std::cell::RefCell<%s>", "std::cmp::Reverse<%s>", "std::sync::Mutex<%s>", "Tr1<%s>", "Tr2<%s>"])
        return Ty(w % a.text, a.norm, a.name, a.inline)

    def near(self, n):
        """Variations of one type: arguments swapped, one module or constant changed, ..."""
        r = self.r
        t = r.choice([t for t in self.templates if t.params])
        args = [self.arg(k, 1) for p, k in t.params]
        out = [self.inst([t], args)]
        for _ in range(n - 1):
            a, u = list(args), t
            x = r.random()
            if x < 0.3:
                i = r.randrange(len(a))
                a[i] = self.arg(t.params[i][1], 1)
            elif x < 0.5:
                i, j = r.randrange(len(a)), r.randrange(len(a))
                if t.params[i][1] == t.params[j][1]:
                    a[i], a[j] = a[j], a[i]
            elif x < 0.7:
                same = [s for s in self.templates if s.ident == t.ident and [k for _, k in s.params] == [k for _, k in t.params]]
                u = r.choice(same)
            elif x < 0.85:
                i = r.randrange(len(a))
                if t.params[i][1] in ("type", "phantom", "skipped"):
                    old = a[i]
                    a[i] = self.builtin(r.choice(BUILTINS), lambda: old)
            y = self.inst([u], a)
            if r.random() < 0.3:
                y = self.wrap(y)
            out.append(y)
        return out

    def wrap(self, y):
        return self.builtin(self.r.choice(["vec", "opt", "wrap", "wrap", "array"]), lambda: y)

    def find(self, m, ident):
        return next(t for t in self.templates if t.mod == m and t.ident == ident)

    def systematic(self):
        """Same-named arguments under every kind of type, and arguments that read alike when run together."""
        r = self.r
        out = []
        m = r.randrange(NMOD)
        plain = [self.inst([self.find(i, "Plain")], []) for i in range(NMOD)]
        one = lambda x: self.inst([self.find(m, "One")], [x])
        for b in sorted(set(BUILTINS)):
            i, j = r.sample(range(NMOD), 2)
            st = r.getstate()
            for x in (plain[i], plain[j], one(plain[i])):
                r.setstate(st)  # the same form of the same built-in type
                out.append(one(self.builtin(b, lambda: x)))
        # maps that differ in their keys only
        v = r.choice(plain)
        for k, kn in [("String", None), ("u8", "uint8"), ("u64", "uint64"), ("i16", "int16"), ("bool", "boolean"), ("char", "Character"), ("m0::Plain", "Plain"), ("m1::Plain", "Plain")]:
            out.append(one(Ty("%s<%s, %s>" % (r.choice(["BTreeMap", "HashMap"]), k, v.text), "map(%s,%s)" % (k + "<>" if "::" in k else k, v.norm),
                              "Map_from_%s_to_%s" % (kn, v.name) if kn else "Map_of_" + v.name, True)))
        for a, b in [(1, 21), (12, 1), (2, 12), (21, 2), (1, 12), (11, 2)]:
            out.append(self.inst([self.find(m, "Duo")], [(str(a), "usize"), (str(b), "usize")]))
        for a, b in [(1, 0), (10, 0), (1, 10), (0, 11)]:
            out.append(self.inst([self.find(m, "Trio")], [(str(a), "u64"), plain[0], (str(b), "u64")]))
        for a, b in [(0, 1), (1, 0)]:
            # a pair of one type and one of two arguments
            x, y = one(one(plain[a])), self.inst([self.find(m, "Duo")], [(str(a), "usize"), (str(b), "usize")])
            out += [self.builtin("result", iter([x, y]).__next__), self.builtin("either", iter([x, y]).__next__), self.builtin("tuple", iter([x, y] * 3).__next__)]
        r.shuffle(out)
        return out

    def program(self, n):
        self.declare()
        tys = self.systematic()
        n += len(tys) // 2
        while len(tys) < n:
            tys += self.near(self.r.choice([2, 3, 4])) if self.r.random() < 0.7 else [self.ty(3)]
        s = PRELUDE
        for m, body in enumerate(self.mods):
            s += "#[derive(JsonSchema)] pub struct Outer%d { pub out_m%d: u8 }\n" % (m, m)
        for m, body in enumerate(self.mods):
            s += "pub mod m%d {\nuse super::*;\n%s}\n" % (m, body)
        s += "fn main() { vh::ids::main(vec![\n"
        for t in tys:
            s += "    Ty::new::<%s>(%s, %s, %s, %s),\n" % (t.text, q(t.text), q(t.norm), q(t.name), "true" if t.inline else "false")
        return s + "]); }\n"


BUILTINS = ["vec", "opt", "set", "map", "tuple", "array", "result", "range", "bound", "wrap", "wrap", "arrayvec", "either"]

PRELUDE = """#![allow(warnings)]
#![recursion_limit = "512"]
use schemars::{JsonSchema, Schema, SchemaGenerator};
use std::collections::*;
use std::rc::Rc;
use vh::ids::Ty;
pub trait Tr { type Out; }
pub fn by_type_name<A>(_: &mut SchemaGenerator) -> Schema {
    schemars::json_schema!({"const": std::any::type_name::<A>()})
}
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct Tr1<X>(pub X);
#[derive(JsonSchema)]
#[schemars(transparent)]
pub struct Tr2<X> { pub value: X, #[serde(skip)] pub p: std::marker::PhantomData<u8> }

"""


def write(dirpath, nbins, seed, per, prefix="i"):
    os.makedirs(dirpath, exist_ok=True)
    names = []
    for i in range(nbins):
        n = "%s%d" % (prefix, i)
        with open(os.path.join(dirpath, n + ".rs"), "w") as f:
            f.write(Ids(seed * 1000003 + i * 7919 + 71).program(per))
        names.append(n)
    return names
