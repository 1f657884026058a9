"""Random Rust type definitions (serde + schemars derives) with descriptors for the reference model.

Every random choice comes from random.Random(seed), so a corpus is a function of the seed alone.
"""
import json, random

FIELD_RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case",
               "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def rule_field(rule, s):
    if rule in (None, "lowercase", "snake_case"):
        return s
    if rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return s.upper()
    if rule in ("PascalCase", "camelCase"):
        out, cap = "", True
        for ch in s:
            if ch == "_":
                cap = True
            elif cap:
                out += ch.upper()
                cap = False
            else:
                out += ch
        if rule == "camelCase":
            out = out[:1].lower() + out[1:]
        return out
    if rule == "kebab-case":
        return s.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return s.upper().replace("_", "-")
    raise ValueError(rule)


def rule_variant(rule, s):
    if rule in (None, "PascalCase"):
        return s
    if rule == "lowercase":
        return s.lower()
    if rule == "UPPERCASE":
        return s.upper()
    if rule == "camelCase":
        return s[:1].lower() + s[1:]
    snake = ""
    for i, ch in enumerate(s):
        if i > 0 and ch.isupper():
            snake += "_"
        snake += ch.lower()
    if rule == "snake_case":
        return snake
    if rule == "SCREAMING_SNAKE_CASE":
        return snake.upper()
    if rule == "kebab-case":
        return snake.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return snake.upper().replace("_", "-")
    raise ValueError(rule)


def q(s):
    """Rust string literal."""
    out = '"'
    for ch in s:
        if ch in '"\\':
            out += "\\" + ch
        elif ch == "\n":
            out += "\\n"
        elif ord(ch) < 32 or ord(ch) == 127:
            out += "\\u{%x}" % ord(ch)
        else:
            out += ch
    return out + '"'


INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"]
PRIMS = INTS + ["bool", "String", "String", "char", "f32", "f64", "u8", "i32", "bool"]


class T:
    """A type: kind + arguments; renders to Rust and to the descriptor."""

    def __init__(self, k, *a, **kw):
        self.k, self.a, self.kw = k, a, kw

    hook = None  # (T, text) -> text: used by the twin programs to wrap types

    def rust(self):
        if T.hook is None:
            return self.text()
        if not hasattr(self, "_rust"):
            self._rust = T.hook(self)
        return self._rust

    def plain(self):
        h, T.hook = T.hook, None
        try:
            return self.text()
        finally:
            T.hook = h

    def text(self):
        k, a = self.k, self.a
        if k == "prim":
            return a[0]
        if k == "opt":
            return "Option<%s>" % a[0].rust()
        if k == "vec":
            return "%s<%s>" % (self.kw.get("c", "Vec"), a[0].rust())
        if k == "set":
            return "%s<%s>" % (self.kw.get("c", "BTreeSet"), a[0].plain())
        if k == "map":
            return "%s<%s, %s>" % (self.kw.get("c", "BTreeMap"), a[0], a[1].rust())
        if k == "tuple":
            return "(" + "".join(x.rust() + ", " for x in a) + ")"
        if k == "array":
            return "[%s; %d]" % (a[1].rust(), a[0])
        if k == "wrap":
            w = self.kw["w"]
            return ("Cow<'static, %s>" if w == "Cow" else w + "<%s>") % a[0].rust()
        if k == "ref":
            return a[0].rust_name if T.hook else a[0].name
        if k == "param":
            return a[0]
        if k == "any":
            return "serde_json::Value"
        raise ValueError(k)

    def desc(self):
        k, a = self.k, self.a
        if k == "prim":
            return {"k": "prim", "name": a[0]}
        if k in ("opt", "vec", "set", "wrap"):
            return {"k": k, "t": a[0].desc()}
        if k == "map":
            return {"k": "map", "key": a[0], "t": a[1].desc()}
        if k == "tuple":
            return {"k": "tuple", "ts": [x.desc() for x in a]}
        if k == "array":
            return {"k": "array", "n": a[0], "t": a[1].desc()}
        if k == "ref":
            return {"k": "ref", "id": a[0].id}
        if k == "any":
            return {"k": "any"}
        raise ValueError(k)

    def subst(self, m):
        if self.k == "param":
            return m[self.a[0]]
        if self.k == "ref" and self.a[0].template is not None:
            d = self.a[0]
            return T("ref", d.gen.instance(d.template, [x.subst(m) for x in d.args]))
        a = [x.subst(m) if isinstance(x, T) else x for x in self.a]
        t = T(self.k, *a, **self.kw)
        return t

    def refs(self):
        if self.k == "ref":
            return {self.a[0]}
        s = set()
        for x in self.a:
            if isinstance(x, T):
                s |= x.refs()
        return s

    def has_param(self):
        if self.k == "param":
            return True
        if self.k == "ref" and self.a[0].args:
            return any(x.has_param() for x in self.a[0].args)
        return any(isinstance(x, T) and x.has_param() for x in self.a)


class Def:
    template = None
    args = None

    def __init__(self, gen, name):
        self.gen = gen
        self.id = None
        self.name = name
        self.rust_name = name
        self.body = None      # python structure mirrored to the descriptor
        self.flat_ok = False  # may be used under flatten
        self.obj_ok = False   # named struct or map-like, may be an internally tagged newtype
        self.has_flatten_map = False
        self.feats = set()
        self.done = False
        self.deny = self.default = self.transparent = False
        self.from_ = self.into = None
        self.try_from = False
        self.deny_conv = self.plain = False
        self.flat_keys = {name}
        self.flat_params = set()


class Gen:
    def __init__(self, seed, opts=None):
        self.r = random.Random(seed)
        self.opts = dict(special=0.25, meta=0.2, flatten=1.0, recursion=1.0, generics=1.0, conv=1.0, redirect=0.06)
        self.opts.update(opts or {})
        self.n = 0
        self.defs = []       # Def with descriptors (concrete)
        self.out = []        # rust text
        self.templates = []
        self.instances = {}
        self.roots = []
        self.pending = []

    def maptype(self):
        # hash containers have no fixed iteration order, which shows in default values
        t = self.r.choice(["BTreeMap", "HashMap"])
        return "BTreeMap" if self.opts.get("nohash") else t

    def uid(self):
        self.n += 1
        return self.n

    def p(self, x):
        return self.r.random() < x

    def add(self, d):
        d.id = len(self.defs)
        self.defs.append(d)
        return d

    # ------------------------------------------------------------- types
    def prim(self):
        return T("prim", self.r.choice(PRIMS))

    def leaf(self):
        return self.prim()

    def ty(self, depth=2, params=(), fwd=()):
        """fwd: definitions in progress; only used behind a guard that ends the recursion."""
        r = self.r
        if fwd and self.p(0.3 * self.opts["recursion"]):
            d = r.choice(list(fwd))
            t = T("ref", d)
            self.cur_rec.add(d)
            return r.choice([
                lambda: T("opt", T("wrap", t, w="Box")),
                lambda: T("vec", t),
                lambda: T("map", "String", t, c=self.maptype()),
                lambda: T("wrap", T("vec", t), w="Rc") if self.p(.3) else T("vec", T("opt", t)),
            ])()
        if params and self.p(0.35):
            return T("param", r.choice(list(params)))
        if depth <= 0:
            return self.prim()
        x = r.random()
        if x < 0.30:
            return self.prim()
        if x < 0.44:
            return T("opt", self.ty(depth - 1, params))
        if x < 0.53:
            return T("vec", self.ty(depth - 1, params), c=r.choice(["Vec", "Vec", "VecDeque"]))
        if x < 0.56:
            return T("set", T("prim", r.choice(["u8", "String", "i32", "bool"])), c=self.maptype().replace("Map", "Set"))
        if x < 0.62:
            key = r.choice(["String", "String", "u8", "i32", "u64", "bool", "char"])
            return T("map", key, self.ty(depth - 1, params), c=self.maptype())
        if x < 0.67:
            return T("tuple", *[self.ty(depth - 1, params) for _ in range(r.randint(1, 3))])
        if x < 0.70:
            return T("array", r.randint(0, 3), self.ty(depth - 1, params))
        if x < 0.75:
            return T("wrap", self.ty(depth - 1, params), w=r.choice(["Box", "Rc", "Arc", "RefCell"]))
        if x < 0.76:
            return T("prim", "()")
        if x < 0.78:
            return T("any")
        ds = [d for d in self.defs if d.done]
        if ds:
            if self.templates and self.p(0.3 * self.opts["generics"]):
                return self.inst_type(depth - 1, params)
            return T("ref", r.choice(ds[-14:]))
        return self.prim()

    def inst_type(self, depth, params=()):
        tm = self.r.choice(self.templates)
        args = [self.ty(min(depth, 1), params) for _ in tm.params]
        used = set(tm.flat_keys)
        for i, pr in enumerate(tm.params):
            if pr in tm.flat_params:
                cands = [d for d in self.defs if d.done and d.flat_ok and d.plain and not (d.flat_keys & used)]
                if not cands:
                    return self.prim()
                args[i] = T("ref", self.r.choice(cands))
                used |= args[i].a[0].flat_keys
        if any(a.has_param() for a in args):
            d = Def(self, "%s<%s>" % (tm.name, ", ".join(a.plain() for a in args)))
            d.template, d.args = tm, args
            d.rust_name = "%s<%s>" % (tm.name, ", ".join(a.rust() for a in args))
            return T("ref", d)
        return T("ref", self.instance(tm, args))

    def instance(self, tm, args):
        rn = "%s<%s>" % (tm.name, ", ".join(a.plain() for a in args))
        if rn in self.instances:
            return self.instances[rn]
        d = Def(self, rn)
        d.rust_name = "%s<%s>" % (tm.name, ", ".join(a.rust() for a in args))
        d.feats = set(tm.feats) | {"generic"}
        self.instances[rn] = d
        self.add(d)
        m = dict(zip(tm.params, args))
        d.deny, d.default, d.transparent = tm.deny, tm.default, tm.transparent
        d.flat_ok = tm.flat_ok
        d.plain = False
        d.obj_ok = tm.obj_ok
        d.body = tm.body_fn(m)
        d.done = True
        return d

    # ------------------------------------------------------------- names
    SPECIAL = ["a b", "ünï", "x/y~z", "type", "properties", "$ref", "%25", "required", "0", "$defs", "const",
               "additionalProperties", "é\"q\\", "items", "", "ab\tc", "nullable", "if", "enum", "default"]

    def ident(self):
        n = self.uid()
        return self.r.choice(["f%d", "alpha_beta_%d", "g%d_x", "some_long_name_%d", "q_%d_", "x%dy", "url_%d_id"]) % n

    def vident(self):
        n = self.uid()
        return self.r.choice(["V%d", "FooBar%d", "HttpURL%dX", "A%dB", "Variant%dName"]) % n

    def names(self, base, attrs, rule, special, used):
        """(ser, de) wire names; appends a rename attribute sometimes."""
        ser, de = rule[0](base), rule[1](base)
        if self.p(0.2):
            def fresh():
                if special and self.p(0.5):
                    c = self.r.choice(self.SPECIAL)
                    if c not in used:
                        return c
                return self.r.choice(["r%d", "re-%d", "ren amed%d", "é%d", "R/%d~", "%%%d"]) % self.uid()
            if self.p(0.5):
                s = d = fresh()
                attrs.append("rename = %s" % q(s))
                ser = de = s
            else:
                x = self.r.randint(1, 3)
                parts = []
                if x & 1:
                    ser = fresh()
                    parts.append("serialize = %s" % q(ser))
                if x & 2:
                    de = fresh()
                    if de == ser or de in used:
                        de = "d%d" % self.uid()
                    parts.append("deserialize = %s" % q(de))
                attrs.append("rename(%s)" % ", ".join(parts))
        used.add(ser)
        used.add(de)
        return ser, de

    def rules(self, attr, cattrs, fn, pr=0.3):
        """rename_all-like container attribute; returns (ser_rule, de_rule) functions."""
        a = b = None
        if self.p(pr):
            if self.p(0.6):
                a = b = self.r.choice(FIELD_RULES)
                cattrs.append("%s = %s" % (attr, q(a)))
            else:
                parts = []
                if self.p(0.7):
                    a = self.r.choice(FIELD_RULES)
                    parts.append("serialize = %s" % q(a))
                if self.p(0.7) or not parts:
                    b = self.r.choice(FIELD_RULES)
                    parts.append("deserialize = %s" % q(b))
                cattrs.append("%s(%s)" % (attr, ", ".join(parts)))
        return (lambda s: fn(a, s)), (lambda s: fn(b, s)), (a, b)

    def meta(self, indent=""):
        o = ""
        if self.p(self.opts["meta"]):
            x = self.r.random()
            if x < 0.4:
                o += "%s/// %s\n" % (indent, self.r.choice(["Docs.", "# Title\n%s///\n%s/// Description" % (indent, indent), "Some text\n%s/// more" % indent]))
            elif x < 0.55:
                o += '%s#[schemars(title = "Title %d")]\n' % (indent, self.uid())
            elif x < 0.7:
                o += '%s#[schemars(description = "D%d")]\n' % (indent, self.uid())
            elif x < 0.85:
                o += '%s#[schemars(extend("x-%d" = {"$ref": "nowhere", "k": [1, null]}))]\n' % (indent, self.uid())
            else:
                o += '%s#[schemars(example = &"ex")]\n' % indent
        return o

    # ------------------------------------------------------------- fields
    def fields(self, n, fwd, rule, special, flat, deny, params=(), enum_variant=False, used=None):
        """Named fields. flat: flatten allowed. Returns (rust lines, [field dicts with T types], info)."""
        r = self.r
        used = used if used is not None else set()
        lines, fs = [], []
        info = dict(flatmap=False, flatten=False, flat_params=set())
        for _ in range(n):
            id_ = self.ident()
            attrs = []
            f = dict(skip_ser=False, skip_de=False, skip_if=False, default=False, flatten=False)
            if flat and self.p(0.22 * self.opts["flatten"]):
                ft = self.flat_type(deny, params, info)
                if ft is not None:
                    f["flatten"] = True
                    info["flatten"] = True
                    attrs.append("flatten")
                    if self.p(0.08):
                        attrs.append("skip_serializing")
                        f["skip_ser"] = True
                    elif self.p(0.08) and not ft.has_param():
                        attrs.append("skip_deserializing")
                        f["skip_de"] = True
                    f.update(ser=id_, de=id_, ty=ft, ident=id_)
                    lines.append((id_, attrs, ft))
                    fs.append(f)
                    continue
            t = self.ty(2, params, fwd)
            ser, de = self.names(id_, attrs, rule, special, used)
            self.field_attrs(f, attrs, t)
            f.update(ser=ser, de=de, ty=t, ident=id_)
            lines.append((id_, attrs, t))
            fs.append(f)
        if any(f["flatten"] for f in fs) and all(f["skip_ser"] for f in fs):
            # serde's Serialize derive does not compile when only skipped members are flattened
            for f, (_, attrs, _) in zip(fs, lines):
                if f["flatten"]:
                    attrs.remove("skip_serializing")
                    f["skip_ser"] = False
        if flat and not enum_variant and not deny and self.p(0.1 * self.opts["flatten"]):
            # a flattened map takes everything that is left; typed maps only next to plain structs
            plain = all((not f["flatten"]) or self.plain_flat(f["ty"]) for f in fs)
            if plain and not any(f["flatten"] and f["ty"].k == "param" for f in fs):
                t = r.choice([T("map", "String", T("prim", r.choice(["u8", "String", "bool"])), c="BTreeMap"),
                              T("map", "String", T("any"), c=self.maptype()), T("map", "String", T("any"), c="BTreeMap"),
                              T("wrap", T("map", "String", T("prim", "i32"), c="BTreeMap"), w="Box")])
                id_ = self.ident()
                f = dict(skip_ser=False, skip_de=False, skip_if=False, default=False, flatten=True, ser=id_, de=id_, ty=t, ident=id_)
                fs.append(f)
                lines.append((id_, ["flatten"], t))
                info["flatmap"] = info["flatten"] = True
        return lines, fs, info

    def field_attrs(self, f, attrs, t, positional=False):
        has_p = t.has_param()
        if self.p(0.06) and not has_p:
            attrs.append("skip")
            f["skip_ser"] = f["skip_de"] = True
        elif self.p(0.06):
            attrs.append("skip_serializing")
            f["skip_ser"] = True
        elif self.p(0.06) and not has_p:
            attrs.append("skip_deserializing")
            f["skip_de"] = True
        if not f["skip_de"] and not has_p and self.p(0.18) and not positional:
            f["default"] = True
            if self.p(0.5):
                attrs.append("default")
            else:
                fn = "d%d" % self.uid()
                self.out.append("fn %s() -> %s { Arb::arb(&mut Rng::with_fuel(%d, 6)) }\n" % (fn, t.rust(), self.uid()))
                attrs.append("default = %s" % q(fn))
        if not f["skip_ser"] and not positional and self.p(0.15):
            f["skip_if"] = True
            attrs.append('skip_serializing_if = "vh::gen::skip_some"')

    def plain_flat(self, t):
        while t.k in ("wrap",):
            t = t.a[0]
        return t.k == "ref" and t.a[0].plain

    def flat_type(self, deny, params, info):
        r = self.r
        if params and self.p(0.4):
            p = r.choice(list(params))
            if p in info["flat_params"]:
                return None
            info["flat_params"].add(p)
            return T("param", p)
        used = info.setdefault("used_flat", set())
        cands = [d for d in self.defs if d.done and d.flat_ok and not d.has_flatten_map and not (d.flat_keys & used)
                 and (not deny or d.plain)]
        if not cands:
            return None
        d = r.choice(cands[-12:])
        used |= d.flat_keys
        t = T("ref", d)
        if self.p(0.25) and not deny:
            t = T("opt", t)
        if self.p(0.15):
            t = T("wrap", t, w="Box")
        return t

    def render_fields(self, lines, indent="    ", vis="pub "):
        o = ""
        for id_, attrs, t in lines:
            o += self.meta(indent)
            a, ty = self.field_text(attrs, t, indent)
            o += a
            o += "%s%s%s: %s,\n" % (indent, vis, id_, ty)
        return o

    # Rendering of serde attributes; the twin programs (twins.py) render them differently.
    def attr_text(self, attrs, level, indent="", nl="\n"):
        return "%s#[serde(%s)]%s" % (indent, ", ".join(attrs), nl) if attrs else ""

    def field_text(self, attrs, t, indent="", nl="\n"):
        ty, more = t.rust(), ""
        if self.opts["redirect"] and not any(a.startswith("default = ") for a in attrs) and self.p(self.opts["redirect"]):
            more, ty = self.redirect(t, indent, nl)
        return self.attr_text(attrs, "field", indent, nl) + more, ty

    def maybe_opt(self, t):
        if t.k in ("opt", "param"):
            return True
        if t.k == "wrap":
            return self.maybe_opt(t.a[0])
        if t.k == "ref":
            d = t.a[0]
            return d.transparent or d.from_ is not None or d.into is not None or not d.done
        return False

    def redirect(self, t, indent, nl):
        """A field type without a schema of its own, whose schema is given by an attribute."""
        self.cur.feats.add("redirected")
        return "%s#[schemars(with = %s)]%s" % (indent, q(t.rust()), nl), "Opaque<%s>" % t.rust()

    def tuple_fields(self, n, fwd, params=(), special=False):
        lines, fs = [], []
        for i in range(n):
            attrs = []
            f = dict(skip_ser=False, skip_de=False, skip_if=False, default=False, flatten=False)
            t = self.ty(1, params, fwd)
            self.field_attrs(f, attrs, t, positional=True)
            f.update(ser=str(i), de=str(i), ty=t)
            fs.append(f)
            lines.append((attrs, t))
        return lines, fs

    def render_tuple(self, lines, vis="pub "):
        o = []
        for attrs, t in lines:
            a, ty = self.field_text(attrs, t, "", " ")
            o.append("%s%s%s" % (a, vis, ty))
        return "(" + ", ".join(o) + ")"

    @staticmethod
    def conc(fs, m):
        out = []
        for f in fs:
            g = {k: v for k, v in f.items() if k not in ("ty", "ident")}
            g["ty"] = f["ty"].subst(m)
            out.append(g)
        return out

    # ------------------------------------------------------------- definitions
    def gen_struct(self, d, fwd, params=()):
        r = self.r
        cattrs, sattrs = [], []
        style = r.choices(["named", "newtype", "tuple", "unit"], [70, 12, 12, 6])[0]
        if params and style == "unit":
            style = "named"
        special = self.p(self.opts["special"])
        head = self.container_meta(d, cattrs, params, fwd)
        d.plain = False
        d.flat_keys = set()
        if style == "unit":
            text = "pub struct %s;\n" % d.name
            body = lambda m: {"struct": {"style": "unit", "fields": []}}
            arb = d.name
        elif style == "newtype":
            t = self.ty(2, params)
            if params and not all(self.mentions(t, p) for p in params):
                t = T("param", "A") if len(params) == 1 else T("tuple", *[T("param", p) for p in params])
            transparent = self.p(0.3)
            if transparent:
                cattrs.append("transparent")
                d.transparent = True
                d.feats.add("transparent")
            # (a transparent struct with a redirected field is a type of its own)
            meta, ty = ("", t.rust()) if transparent and not self.opts["redirect"] else self.field_text([], t, "", " ")
            if not meta and not transparent and self.opts["redirect"] and not self.maybe_opt(t) and self.p(0.15):
                # the schema of the whole struct is given
                meta, ty = self.redirect(t, "", "\n")
                head, meta = head + meta, ""
            text = "pub struct %s%s(%spub %s);\n" % (d.name, self.tparams(params), meta, ty)
            fs = [dict(ser="0", de="0", ty=t)]
            body = lambda m: {"struct": {"style": "newtype", "fields": self.conc(fs, m)}}
            arb = "%s(Arb::arb(r))" % d.name
        elif style == "tuple":
            lines, fs = self.tuple_fields(r.choice([2, 2, 3, 3, 4]), fwd, params)
            for p in params:
                if not any(self.mentions(f["ty"], p) for f in fs):
                    lines.append(([], T("param", p)))
                    fs.append(dict(skip_ser=False, skip_de=False, skip_if=False, default=False, flatten=False,
                                   ser=str(len(fs)), de=str(len(fs)), ty=T("param", p)))
            if not params and self.p(0.15):
                cattrs.append("default")
                d.default = True
            text = "pub struct %s%s%s;\n" % (d.name, self.tparams(params), self.render_tuple(lines))
            body = lambda m: {"struct": {"style": "tuple", "fields": self.conc(fs, m)}}
            arb = "%s(%s)" % (d.name, ", ".join("Arb::arb(r)" for _ in fs))
        else:
            deny = self.p(0.2)
            if deny:
                cattrs.append("deny_unknown_fields")
                d.deny = True
                d.feats.add("deny")
            if not params and self.p(0.12):
                d.default = True
                if self.p(0.6):
                    cattrs.append("default")
                else:
                    fn = "d%d" % self.uid()
                    self.out.append("fn %s() -> %s { Arb::arb(&mut Rng::with_fuel(%d, 6)) }\n" % (fn, d.name, self.uid()))
                    cattrs.append("default = %s" % q(fn))
            sr, dr, _ = self.rules("rename_all", cattrs, rule_field)
            flat = self.p(0.5 * self.opts["flatten"])
            n = r.choices([0, 1, 2, 3, 4, 5, 6], [2, 12, 22, 24, 20, 12, 8])[0]
            if params:
                n = max(n, 1)
            lines, fs, info = self.fields(n, fwd, (sr, dr), special, flat, deny, params)
            if params:
                # every parameter must be used
                missing = [p for p in params if not any(self.mentions(f["ty"], p) for f in fs)]
                for p in missing:
                    id_ = self.ident()
                    t = r.choice([lambda: T("param", p), lambda: T("opt", T("param", p)), lambda: T("vec", T("param", p))])()
                    fs.append(dict(skip_ser=False, skip_de=False, skip_if=False, default=False, flatten=False,
                                   ser=sr(id_), de=dr(id_), ty=t, ident=id_))
                    lines.append((id_, [], t))
            if info["flatten"]:
                d.feats.add("flatten")
                if deny:
                    d.feats.add("flatten+deny")
            d.has_flatten_map = info["flatmap"]
            d.flat_params = info["flat_params"]
            d.flat_ok = not special and not info["flatmap"] and not info["flat_params"] and not (deny and info["flatten"])
            d.plain = d.flat_ok and not info["flatten"]
            d.flat_keys = {d.name} | info.get("used_flat", set())
            d.obj_ok = not info["flat_params"]
            text = "pub struct %s%s {\n%s}\n" % (d.name, self.tparams(params), self.render_fields(lines))
            body = lambda m: {"struct": {"style": "named", "fields": self.conc(fs, m)}}
            arb = "%s { %s }" % (d.name, ", ".join("%s: Arb::arb(r)" % f["ident"] for f in fs))
            d.shape = ("named", fs, sr, dr)
        d.feats.add(style)
        for f in ([] if style == "unit" else fs):
            for k in ("skip_ser", "skip_de", "skip_if", "default", "flatten"):
                if f.get(k):
                    d.feats.add(k)
        if not params and style == "named" and not d.has_flatten_map and self.p(0.06 * self.opts["conv"]):
            self.conversions(d, cattrs)
            d.flat_ok = d.obj_ok = d.plain = False
        self.emit(d, head, cattrs, text, arb, params)
        d.body_fn = body

    def mentions(self, t, p):
        if t.k == "param":
            return t.a[0] == p
        if t.k == "ref":
            return bool(t.a[0].args) and any(self.mentions(x, p) for x in t.a[0].args)
        return any(isinstance(x, T) and self.mentions(x, p) for x in t.a)

    def conversions(self, d, cattrs):
        ds = [x for x in self.defs if x.done and x is not d and not x.deny_conv]
        if not ds:
            return
        n = self.r.randint(1, 3)
        d.feats.add("conversion")
        def target():
            return T("ref", self.r.choice(ds)) if self.p(0.7) else self.r.choice([
                T("prim", "u8"), T("opt", T("prim", "String")), T("vec", T("prim", "i32")), T("map", "String", T("prim", "u8"), c="BTreeMap")])
        if n & 1:
            t = target()
            d.from_ = t
            if self.p(0.5):
                cattrs.append("from = %s" % q(t.rust()))
                self.out.append("impl From<%s> for %s { fn from(_: %s) -> Self { Arb::arb(&mut Rng::new(%d)) } }\n" % (t.rust(), d.name, t.rust(), self.uid()))
            else:
                d.try_from = True
                cattrs.append("try_from = %s" % q(t.rust()))
                self.out.append("impl TryFrom<%s> for %s { type Error = String; fn try_from(_: %s) -> Result<Self, String> { Ok(Arb::arb(&mut Rng::new(%d))) } }\n" % (t.rust(), d.name, t.rust(), self.uid()))
        if n & 2:
            t = target()
            if d.from_ is not None and self.p(0.3):
                t = d.from_
            d.into = t
            cattrs.append("into = %s" % q(t.rust()))
            self.out.append("impl From<%s> for %s { fn from(_: %s) -> Self { Arb::arb(&mut Rng::new(%d)) } }\n" % (d.name, t.rust(), d.name, self.uid())
                            if t.k == "ref" else
                            "impl Into<%s> for %s { fn into(self) -> %s { Arb::arb(&mut Rng::new(%d)) } }\n" % (t.rust(), d.name, t.rust(), self.uid()))

    def gen_enum(self, d, fwd, params=()):
        r = self.r
        cattrs = []
        d.plain = False
        head = self.container_meta(d, cattrs, params, fwd)
        kind = r.choice(["external", "external", "internal", "internal", "adjacent", "untagged"])
        tag = {"external": "external", "untagged": "untagged"}.get(kind)
        special = self.p(self.opts["special"])
        tname = cname = None
        if kind in ("internal", "adjacent"):
            tname = "type" if special and self.p(.4) else "t%d" % self.uid()
            cattrs.append("tag = %s" % q(tname))
            tag = {"internal": tname}
        if kind == "adjacent":
            cname = r.choice(["content", "properties"]) if special and self.p(.4) else "c%d" % self.uid()
            cattrs.append("content = %s" % q(cname))
            tag = {"adjacent": [tname, cname]}
        if kind == "untagged":
            cattrs.append("untagged")
        deny = self.p(0.18)
        if deny:
            cattrs.append("deny_unknown_fields")
            d.deny = True
            d.feats.add("deny")
        vs_r, vd_r, _ = self.rules("rename_all", cattrs, rule_variant)
        fs_r, fd_r, (fa, fb) = self.rules("rename_all_fields", cattrs, rule_field, 0.2)
        n = r.choices([1, 2, 3, 4, 5], [8, 22, 30, 25, 15])[0]
        used = set()
        variants, vtext, arbs = [], "", []
        flat_ok = not special
        flat_keys = {d.name}
        all_unit = kind == "external" and self.p(0.15) and not params
        nunt = 0
        if kind != "untagged" and not all_unit and self.p(0.12):
            nunt = r.randint(1, min(2, n))
        for i in range(n):
            unt = i >= n - nunt
            id_ = self.vident()
            attrs, vattrs = [], []
            untagged_v = unt or kind == "untagged"
            styles = {"external": ["unit", "newtype", "tuple", "named", "named"],
                      "adjacent": ["unit", "newtype", "tuple", "named", "named"],
                      "internal": ["unit", "newtype", "named", "named"],
                      "untagged": ["unit", "newtype", "tuple", "named", "named"]}["untagged" if untagged_v else kind]
            st = "unit" if all_unit else r.choice(styles)
            if st == "tuple" and kind == "internal":
                st = "named"  # serde rejects tuple variants next to an internal tag, even untagged ones
            v = dict(style=st, skip_ser=False, skip_de=False, untagged=unt)
            ser, de = self.names(id_, attrs, (vs_r, vd_r), special and not untagged_v, used)
            v.update(ser=ser, de=de)
            vr = (fs_r, fd_r)
            if st == "named" and self.p(0.2):
                # rename_all on the variant overrides rename_all_fields
                a2 = []
                x, y, (xa, xb) = self.rules("rename_all", a2, rule_field, 1.0)
                attrs.extend(a2)
                vr = ((lambda s, xa=xa: rule_field(xa or fa, s)), (lambda s, xb=xb: rule_field(xb or fb, s)))
            if n > 2 and i > 0 and not params:
                x = r.random()
                if x < 0.05:
                    attrs.append("skip")
                    v["skip_ser"] = v["skip_de"] = True
                elif x < 0.10:
                    attrs.append("skip_serializing")
                    v["skip_ser"] = True
                elif x < 0.15:
                    attrs.append("skip_deserializing")
                    v["skip_de"] = True
            if unt:
                attrs.append("untagged")
            fs = []
            skipped_newtype = None
            vmeta = ""
            if st == "unit":
                vt = id_
                arb = "%s::%s" % (d.name, id_)
                if untagged_v:
                    flat_ok = False
            elif st == "newtype":
                if kind == "internal" and not untagged_v:
                    cands = [x for x in self.defs if x.done and x.obj_ok]
                    if cands:
                        t = T("ref", r.choice(cands[-10:]))
                        if not t.a[0].flat_ok:
                            flat_ok = False
                        else:
                            if t.a[0].flat_keys & flat_keys:
                                flat_ok = False
                            flat_keys |= t.a[0].flat_keys
                    else:
                        t = T("map", "String", self.prim(), c="BTreeMap")
                        flat_ok = False
                    if self.p(.1):
                        t = T("wrap", t, w="Box")
                elif untagged_v:
                    t = self.ty(1, params)
                    flat_ok = False
                else:
                    t = self.ty(2, params, [x for x in fwd] if kind != "untagged" else [])
                    if kind == "adjacent":
                        pass
                skipped = self.p(0.15) and not params
                meta, ty = ("", t.rust()) if skipped or self.maybe_opt(t) or (kind == "internal" and not self.opts["redirect"]) else self.field_text([], t, "", " ")
                if self.opts["redirect"] and not meta and not skipped and not self.maybe_opt(t) and self.p(0.1):
                    vmeta, ty = self.redirect(t, "    ", "\n")
                vt = "%s(%s%s)" % (id_, meta, ty)
                fs = [dict(ser="0", de="0", ty=t)]
                arb = "%s::%s(Arb::arb(r))" % (d.name, id_)
                if skipped:
                    skipped_newtype = r.choice(["skip", "skip", "skip_serializing", "skip_deserializing"])
                    vt = "%s(\n%s        %s)" % (id_, self.attr_text([skipped_newtype], "field", "        "), t.rust())
            elif st == "tuple":
                lines, fs = self.tuple_fields(r.choice([2, 2, 3]), fwd, params)
                vt = id_ + self.render_tuple(lines, "")
                if self.opts["redirect"] and not any(a for a, _ in lines) and self.p(0.2):
                    vmeta, _ = self.redirect(T("tuple", *[t for _, t in lines]), "    ", "\n")
                    vt = "%s(%s)" % (id_, ", ".join("Opaque<%s>" % t.rust() for _, t in lines))
                arb = "%s::%s(%s)" % (d.name, id_, ", ".join("Arb::arb(r)" for _ in fs))
                if untagged_v:
                    flat_ok = False
            else:
                lines, fs, info = self.fields(r.choice([0, 1, 2, 2, 3]), fwd, vr, special, self.p(0.3) and not deny, deny, params,
                                              enum_variant=True, used=({tname, cname} - {None}) | set())
                if info["flatten"]:
                    d.feats.add("variant-flatten")
                    if flat_keys & info.get("used_flat", set()):
                        flat_ok = False
                    flat_keys |= info.get("used_flat", set())
                if info["flat_params"]:
                    flat_ok = False
                d.vflat_params = getattr(d, "vflat_params", set()) | info["flat_params"]
                vt = "%s {\n%s    }" % (id_, self.render_fields(lines, "        ", ""))
                arb = "%s::%s { %s }" % (d.name, id_, ", ".join("%s: Arb::arb(r)" % f["ident"] for f in fs))
            for f in fs:
                for k in ("skip_ser", "skip_de", "skip_if", "default", "flatten"):
                    if f.get(k):
                        d.feats.add(k)
            vtext += self.meta("    ")
            vtext += self.attr_text(attrs, "variant", "    ") + vmeta
            vtext += "    %s,\n" % vt
            v["fields"] = fs
            if skipped_newtype:
                # serde reads and writes it as a unit variant where its field is skipped
                d.feats.add("skipped-newtype")
                flat_ok = flat_ok and kind == "internal"
                u = dict(v, style="unit", fields=[])
                if kind == "adjacent" and not unt:
                    # ... except that it insists on the content when reading
                    c = dict(v, fields=[dict(ser="0", de="0", ty=T("prim", "()"))])
                else:
                    c = u
                w = (u if skipped_newtype != "skip_deserializing" else v, c if skipped_newtype != "skip_serializing" else v)
                variants.append(dict(w[0], skip_de=True))
                variants.append(dict(w[1], skip_ser=True))
            else:
                variants.append(v)
            if not v["skip_ser"] or self.p(0.05):
                arbs.append((arb, bool(fs)))
        if params:
            missing = [p for p in params if not any(self.mentions(f["ty"], p) for v in variants for f in v["fields"])]
            if missing:
                id_ = self.vident()
                name = id_
                fs = []
                for p in missing:
                    fi = self.ident()
                    fs.append(dict(skip_ser=False, skip_de=False, skip_if=False, default=False, flatten=False,
                                   ser=fs_r(fi), de=fd_r(fi), ty=T("param", p), ident=fi))
                # before any untagged variant
                txt = "    %s { %s },\n" % (id_, ", ".join("%s: %s" % (f["ident"], f["ty"].rust()) for f in fs))
                vtext = txt + vtext
                variants.insert(0, dict(style="named", skip_ser=False, skip_de=False, untagged=False,
                                        ser=vs_r(name), de=vd_r(name), fields=fs))
                arbs.append(("%s::%s { %s }" % (d.name, id_, ", ".join("%s: Arb::arb(r)" % f["ident"] for f in fs)), True))
        d.feats.add(kind)
        if nunt:
            d.feats.add("untagged-variant")
            flat_ok = False
        d.flat_ok = flat_ok and not deny and not params
        d.flat_keys = flat_keys
        d.flat_params = getattr(d, "vflat_params", set())
        d.obj_ok = False
        text = "pub enum %s%s {\n%s}\n" % (d.name, self.tparams(params), vtext)
        cheap = [a for a, c in arbs if not c] or [a for a, c in arbs][:1]
        arb = "{ if r.fuel <= 0 { return %s; } r.fuel -= 1; match r.below(%d) { %s, _ => %s } }" % (
            cheap[0], len(arbs), ", ".join("%d => %s" % (i, a) for i, (a, c) in enumerate(arbs[:-1])) or "999 => " + arbs[0][0], arbs[-1][0])
        body = lambda m: {"enum": {"tag": tag, "variants": [dict(v, fields=self.conc(v["fields"], m)) for v in variants]}}
        self.emit(d, head, cattrs, text, arb, params)
        d.body_fn = body

    def tparams(self, params):
        return "<%s>" % ", ".join(params) if params else ""

    def container_meta(self, d, cattrs, params, fwd=()):
        o = self.meta("")
        if self.p(0.1) and not fwd:
            # recursive types must not be inlined (documented)
            o += "#[schemars(inline)]\n"
            d.feats.add("inline")
        if self.p(0.12) and not params:
            nm = self.r.choice(["Re%d", "na me%d", "x/y~%d", "ü%d%%", "a.b%d", "%d", "Type<%d>", "{%d}", "tab\t%d", "q\"%d"]) % self.uid()
            cattrs.append("rename = %s" % q(nm))
            d.wire_name = nm
        return o

    def emit(self, d, head, cattrs, text, arb, params):
        s = self.derives(d) + head
        s += self.attr_text(cattrs, "container")
        s += text
        g = self.tparams(params)
        gb = "<%s>" % ", ".join(p + ": Arb" for p in params) if params else ""
        s += "impl%s Arb for %s%s { fn arb(r: &mut Rng) -> Self { r.fuel -= 1; %s } }\n" % (gb, d.name, g, arb)
        s += "impl%s Default for %s%s { fn default() -> Self { Self::arb(&mut Rng::with_fuel(%d, 3)) } }\n" % (gb, d.name, g, self.uid())
        self.out.append(s)
        d.deny_conv = False

    def derives(self, d):
        return "#[derive(Clone, Debug, Serialize, Deserialize, JsonSchema)]\n"

    def make(self, d, fwd, params=()):
        self.cur_rec = set()
        self.cur = d
        before = len(self.out)
        if self.r.random() < 0.62:
            self.gen_struct(d, fwd, params)
        else:
            self.gen_enum(d, fwd, params)
        if self.cur_rec:
            d.feats.add("recursive")

    def build(self, n):
        r = self.r
        while len(self.roots) < n:
            x = r.random()
            if x < 0.10 * self.opts["recursion"]:
                group = [self.add(Def(self, "R%d" % self.uid())) for _ in range(r.randint(2, 3))]
                for d in group:
                    self.make(d, group)
                for d in group:
                    d.flat_ok = d.obj_ok = d.plain = False
                    d.flat_keys = {d.name}
                    d.body = d.body_fn({})
                    d.done = True
                    self.roots.append(d)
            elif x < 0.22 * self.opts["generics"]:
                tm = Def(self, "G%d" % self.uid())
                params = ("A",) if self.p(.6) else ("A", "B")
                tm.params = params
                self.make(tm, (), params)
                tm.flat_params = getattr(tm, "flat_params", set())
                if tm.flat_params:
                    tm.flat_ok = False
                tm.flat_ok = False
                self.templates.append(tm)
                for _ in range(2):
                    saved = self.templates
                    self.templates = [tm]
                    t = self.inst_type(1)
                    self.templates = saved
                    if t.k == "ref" and t.a[0] not in self.roots:
                        t.a[0].flat_keys = {t.a[0].name}
                        self.roots.append(t.a[0])
            else:
                d = self.add(Def(self, "T%d" % self.uid()))
                self.make(d, [d] if self.p(0.35) else ())
                if "recursive" in d.feats:
                    d.flat_ok = d.flat_ok and self.p(0.5)
                d.body = d.body_fn({})
                d.done = True
                self.roots.append(d)
        for d in self.defs:
            if not hasattr(d, "flat_keys"):
                d.flat_keys = {d.name}

    def descriptors(self):
        out = []
        for d in self.defs:
            def fdesc(f):
                g = dict(f)
                g["ty"] = f["ty"].desc()
                return g
            b = d.body
            if "struct" in b:
                body = {"struct": dict(b["struct"], fields=[fdesc(f) for f in b["struct"]["fields"]])}
            else:
                body = {"enum": {"tag": b["enum"]["tag"],
                                 "variants": [dict(v, fields=[fdesc(f) for f in v["fields"]]) for v in b["enum"]["variants"]]}}
            e = {"name": d.name, "body": body, "deny": d.deny, "default": d.default, "transparent": d.transparent,
                 "feats": sorted(d.feats), "try_from": d.try_from}
            if d.from_ is not None:
                e["from"] = d.from_.desc()
            if d.into is not None:
                e["into"] = d.into.desc()
            out.append(e)
        return out

    def program(self, main="vh::corpus::main"):
        s = PRELUDE + "\n".join(self.out)
        s += "\nconst DESC: &str = include_str!(%s);\n" % q("%s.json" % self.modname)
        s += "fn main() {\n    %s(DESC, vec![\n" % main
        for d in self.roots:
            s += "        vh::corpus::Ops::new::<%s>(%d, %s),\n" % (d.rust_name.replace("<", "::<", 1) if False else d.rust_name, d.id, q(d.rust_name))
        s += "    ]);\n}\n"
        return s


PRELUDE = """#![allow(warnings)]
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::*;
use std::rc::Rc;
use std::sync::Arc;
use vh::gen::{Arb, Opaque};
use vh::Rng;

"""


def write(dirpath, nbins, seed, per, opts=None, main="vh::corpus::main", prefix="g"):
    import os
    os.makedirs(dirpath, exist_ok=True)
    names = []
    for i in range(nbins):
        g = Gen(seed * 1000003 + i * 7919 + 17, opts)
        g.modname = "%s%d" % (prefix, i)
        g.build(per)
        with open(os.path.join(dirpath, g.modname + ".rs"), "w") as f:
            f.write(g.program(main))
        with open(os.path.join(dirpath, g.modname + ".json"), "w") as f:
            json.dump(g.descriptors(), f)
        names.append(g.modname)
    return names


if __name__ == "__main__":
    import sys
    print(write(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])))
