"""C17 programs: every type once without (`mod a`) and once with metadata (`mod b`), the stated metadata as data,
and serde types with defaults whose serialized default values serde itself tells."""
import json, os, random

PRELUDE = r"""#![allow(warnings)]
use schemars::{JsonSchema, JsonSchema_repr, Schema, SchemaGenerator};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::*;
use vh::meta::{Dflt, Fails, Log, Ops};

pub const NAMED: &str = "a named constant";
pub fn text() -> String { "from a function".to_string() }
pub struct Texts;
impl Texts { pub const T: &'static str = "an associated constant"; pub fn owned(&self) -> String { "by method".into() } }
pub fn seven() -> i32 { 7 }
pub fn string_schema(_: &mut SchemaGenerator) -> Schema { schemars::json_schema!({"type": "string", "minLength": 1}) }
pub fn any_schema(_: &mut SchemaGenerator) -> Schema { true.into() }
pub fn no_schema(_: &mut SchemaGenerator) -> Schema { false.into() }
#[derive(Serialize)]
pub struct Point { pub x: i32, pub y: Option<&'static str> }
pub fn amap() -> BTreeMap<&'static str, u8> { BTreeMap::from([("a", 1)]) }
pub fn point() -> Point { Point { x: 1, y: None } }
pub mod nested { pub fn example() -> Vec<String> { vec!["p".into(), "q".into()] } }
"""


def rs(s):
    """a Rust string literal"""
    out = ""
    for ch in s:
        if ch in "\"\\":
            out += "\\" + ch
        elif ch == "\n":
            out += "\\n"
        elif ch == "\t":
            out += "\\t"
        elif ch == "\r":
            out += "\\r"
        elif ch == "\x0c":
            out += "\\x0c"
        elif ord(ch) < 32:
            out += "\\x%02x" % ord(ch)
        else:
            out += ch
    return '"%s"' % out


WORDS = ["alpha", "the Title", "x", "Größe", "日本語", "a \"quoted\" word", "back\\slash", "it's", "# not a heading", "{}", "{0}", "<b>&amp;</b>", "`code`", "a  b", "$ref", "end.", "1", "null", "é", "tab\tinside", "🦀", "- item", "*", "* star", "true", "~0/~1", "%20", "//", "line\nbreak"]
WS = " \t\n\r\x0c"


def words(r, n=3):
    return " ".join(r.choice(WORDS) for _ in range(r.randint(1, n)))


class W:
    def __init__(self, r, tag):
        self.r, self.tag, self.n = r, tag, 0
        self.defs, self.dflts, self.code = [], [], {"a": "", "b": "", "d": ""}

    # ---- texts
    def text_expr(self):
        """(expression, value)"""
        r = self.r
        x = r.random()
        if x < 0.1:
            return '""', ""
        if x < 0.45:
            s = words(r)
            if r.random() < 0.15:
                s = r.choice([" " + s, s + " ", "\n" + s, s + "\n\n"])
            if r.random() < 0.2 and "#" not in s:
                return 'r#"%s"#' % s, s
            return rs(s), s
        a, b = words(r, 1), words(r, 1)
        return r.choice([
            ('concat!(%s, 1, %s)' % (rs(a), rs(b)), a + "1" + b),
            ("NAMED", "a named constant"), ("Texts::T", "an associated constant"), ("text()", "from a function"), ("Texts.owned()", "by method"),
            ("format!(\"{}-{}\", %s, 5)" % rs(a), a + "-5"), ("%s.to_string() + %s" % (rs(a), rs(b)), a + b), ("String::new()", ""),
            ("seven().to_string()", "7"), ("'c'", "c"), ("stringify!(a)", "a"), ("<Texts>::T", "an associated constant"),
            ("std::borrow::Cow::Borrowed(%s)" % rs(b), b), ("Box::<str>::from(%s)" % rs(a), a)])

    def doc(self):
        """(attribute lines, title, description) of documentation"""
        r = self.r
        lines, vals = [], []
        head = r.random() < 0.4
        for i in range(r.randint(1, 6)):
            t = r.choice(["", " ", words(r).replace("\n", " "), words(r).replace("\n", " "), "  " + words(r, 1).replace("\n", " "), words(r, 1).replace("\n", " ") + "  "])
            if i == 0 and head:
                t = r.choice(["# ", "## ", "#", "###### ", "#\t", "# # "]) + words(r).replace("\n", " ") + r.choice(["", "", " ", " #"])
                if r.random() < 0.1:
                    t = "#"
            k = r.random()
            if k < 0.5:
                lead = r.choice([" ", " ", " ", "", "  ", "\t"])
                if (lead + t).startswith("/"):
                    lead = " "
                v = lead + t
                if "\r" in v:
                    continue
                lines.append("///" + v)
            elif k < 0.68:
                v = r.choice([" ", "", "  "]) + t
                if r.random() < 0.25:
                    v += r.choice(["\n", "\n\n", "\n more", "\n\nnext\n"])
                x = "doc = " + (rs(v) if r.random() < 0.7 or "#" in v or "\t" in v else 'r#"%s"#' % v)
                lines.append("#[%s]" % x if r.random() < 0.8 else "#[cfg_attr(all(), %s)]" % x)
            elif k < 0.8:
                a = r.randint(0, len(t))
                # not a literal: no space is taken away
                lines.append("#[doc = concat!(%s, %s)]" % (rs(t[:a]), rs(t[a:])))
                v = None
                vals.append(t)
            else:
                if "*/" in t or t.startswith(("*", "/")) or "/*" in t or "//" in t:
                    t = "plain"
                v = r.choice([" " + t + " ", "\n" + t + "\n", "\n    " + t + "\n    second\n", t + "\n\n third", " " + t])
                if v[0] in "*/":
                    v = " " + v
                if v.endswith("*"):
                    v += " "
                lines.append("/**" + v + "*/")
            if v is not None:
                vals.append(v[1:] if v.startswith(" ") else v)
        if not lines:
            return [], None, None
        s = "\n".join(vals).strip(WS)
        if s.startswith("#"):
            first, _, rest = s.partition("\n")
            title, desc = first.lstrip("#").strip(WS), rest.strip(WS)
        else:
            title, desc = "", s
        out = []
        for l in lines:
            if r.random() < 0.08:
                out.append(r.choice(["#[doc(hidden)]", '#[doc(alias = "other%d")]' % self.uid(), "//// not documentation", "// not documentation", "/*** not documentation */"]))
            out.append(l)
        return out, title or None, desc or None

    def uid(self):
        self.u = getattr(self, "u", 0) + 1
        return self.u

    EXAMPLES = [("1", 1), ("-5", -5), ("0.5", 0.5), ("true", True), ('&"word"', "word"), ('"two words"', "two words"), ('"a-b"', "a-b"), ("seven()", 7), ("point()", {"x": 1, "y": None}), ('Point { x: 2, y: Some("z") }', {"x": 2, "y": "z"}),
                ("nested::example()", ["p", "q"]), ("vec![1, 2]", [1, 2]), ("None::<u8>", None), ("Some(3)", 3), ("()", None), ("(1, \"t\")", [1, "t"]), ("serde_json::json!({\"k\": [null]})", {"k": [None]}), ("1 + 1", 2), ("'c'", "c"), ("NAMED", "a named constant"),
                ("vec![Some(1u8), None]", [1, None]), ("amap()", {"a": 1}), ("u64::MAX", 2**64 - 1)]
    EXT = [("1", 1), ('"s"', "s"), ("null", None), ("[1, \"a\", null]", [1, "a", None]), ('{ "a": { "b": [true] } }', {"a": {"b": [True]}}), ("seven()", 7), ("1 + 2", 3), ("[seven(), { \"p\": point() }]", [7, {"p": {"x": 1, "y": None}}]), ("false", False), ("NAMED", "a named constant"),
           ("vec![1u8, 2]", [1, 2]), ("-1.5", -1.5), ("{}", {}), ("[]", []), ('{ "title": "inner" }', {"title": "inner"}), ("(\"a\", 2)", ["a", 2]), ("Some(\"o\")", "o"), ("text()", "from a function")]

    def meta(self, where):
        """(attribute lines, ops, title given by attribute)"""
        r = self.r
        ops, attrs, items = [], [], []
        title = desc = None
        title_attr = False
        if r.random() < 0.55:
            dl, title, desc = self.doc()
            attrs += dl
        if r.random() < 0.3:
            e, title = self.text_expr()
            items.append("title = " + e)
            title_attr = True
        if r.random() < 0.3:
            e, desc = self.text_expr()
            items.append("description = " + e)
        if title:
            ops.append({"set": "title", "v": title})
        if desc:
            ops.append({"set": "description", "v": desc})
        if r.random() < 0.2:
            attrs.insert(r.randint(0, len(attrs)), r.choice(["#[deprecated]", '#[deprecated = "use another"]', '#[deprecated(since = "1.0", note = "x")]']))
            ops.append({"set": "deprecated", "v": True})
        ex = []
        if r.random() < 0.25:
            for _ in range(r.randint(1, 3)):
                e, v = r.choice(self.EXAMPLES)
                ex.append(v)
                items.append("example = " + e)
                if r.random() < 0.1:
                    items.append("example = Fails")
            ops.append({"set": "examples", "v": ex})
        ext, used = [], set()
        if r.random() < 0.3:
            for _ in range(r.randint(1, 3)):
                ks = ["x-a", "x-b", "x", "$comment", "title", "description", "examples", "deprecated", "x-\"q", "", "x ü", "foo.bar/~baz"]
                if where == "field":
                    ks += ["readOnly", "writeOnly", "default"]
                k = r.choice(ks)
                if k in used:
                    continue
                used.add(k)
                if k in ("title", "description", "$comment"):
                    s = words(r)
                    e, v = rs(s), s
                elif k in ("readOnly", "writeOnly", "deprecated"):
                    e, v = r.choice([("true", True), ("false", False)])
                elif k == "examples":
                    e, v = "[9, null]", [9, None]
                else:
                    e, v = r.choice(self.EXT)
                ext.append("%s = %s" % (rs(k), e))
                ops.append({"set": k, "v": v})
            if r.random() < 0.5:
                items.append("extend(%s)" % ", ".join(ext))
            else:
                items += ["extend(%s)" % x for x in ext]
        # (the order within one kind is kept when the items are mixed below)
        if r.random() < 0.2:
            for _ in range(r.randint(1, 3)):
                n = "t%d" % self.uid()
                k = r.choice(["log", "log", "fn", "closure", "drop", "upper", "moved"])
                if k == "log":
                    items.append('transform = Log("%s")' % n)
                    ops.append({"t": "log", "v": n})
                elif k == "closure":
                    items.append('transform = vh::meta::logger("%s")' % n)
                    ops.append({"t": "log", "v": n})
                elif k == "fn":
                    items.append("transform = vh::meta::log_fn")
                    ops.append({"t": "log", "v": "fn"})
                else:
                    items.append("transform = vh::meta::%s" % k)
                    ops.append({"t": k})
        groups = {}
        for it in items:
            groups.setdefault(it.split("=")[0].split("(")[0].strip(), []).append(it)
        order = []
        while groups:
            k = r.choice(sorted(groups))
            order.append(groups[k].pop(0))
            if not groups[k]:
                del groups[k]
        helpers = []
        while order:
            n = r.randint(1, len(order))
            helpers.append("#[schemars(%s)]" % (", ".join(order[:n]) + r.choice(["", "", ","])))
            order = order[n:]
        attrs = self.interleave(attrs, helpers)
        return attrs, ops, title_attr

    # ---- types
    LEAF = ["u32", "i64", "String", "bool", "f64", "Option<String>", "Option<u8>", "Vec<u8>", "(u8, String)", "[u8; 2]", "()", "serde_json::Value", "BTreeMap<String, i32>", "char", "Box<str>", "Vec<Option<bool>>", "u64", "std::time::Duration", "Vec<std::time::Duration>", "Option<std::time::Duration>"]

    def ty(self, me=None):
        r = self.r
        hosts = [d for d in self.defs if not d.get("gen")]
        if not hosts or r.random() < 0.5:
            if me and r.random() < 0.08:
                k = r.choice(["opt", "vec", "map"])
                return {"opt": "Option<Box<%s>>", "vec": "Vec<%s>", "map": "BTreeMap<String, %s>"}[k] % me, {"k": k, "i": int(me[1:])}
            return r.choice(self.LEAF), None
        d = r.choice(hosts)
        w = r.choice(["%s", "%s", "Box<%s>", "Vec<%s>", "map", "std::sync::Arc<%s>", "opt"])
        if w == "opt" and d["kind"] != "struct":
            w = "%s"
        if w == "map":
            return "HashMap<String, %s>" % d["rust"], {"k": "map", "i": d["id"]}
        if w == "opt":
            return "Option<%s>" % d["rust"], {"k": "opt", "i": d["id"]}
        return w % d["rust"], {"k": "vec" if "Vec" in w else "same", "i": d["id"]}

    def field(self, i, n, named, me, allow_skip=True):
        r = self.r
        t, m = self.ty(me)
        attrs, ops, _ = self.meta("field") if r.random() < 0.65 else ([], [], False)
        both = []
        f = {"ser": "f%d_%d" % (n, i), "de": "f%d_%d" % (n, i), "ty": m, "ops": ops, "attrs": bool(attrs)}
        if allow_skip and r.random() < 0.12:
            k = r.choice(["skip_serializing", "skip_deserializing"]) if m is None and t != "[u8; 2]" and "T%d" not in t and (not me or me not in t) else "skip_serializing"
            both.append("#[serde(%s)]" % k)
            f[k] = True
        if named and r.random() < 0.12:
            a = r.choice(["type", "a b", "ü", "$ref", "x/y", "title", "description", "default", "properties"]) + "_%d_%d" % (n, i)
            if r.random() < 0.3:
                both.append("#[serde(rename(serialize = %s))]" % rs(a))
                f["ser"] = a
            else:
                both.append("#[serde(rename = %s)]" % rs(a))
                f["ser"] = f["de"] = a
        if m is None and r.random() < 0.1:
            both.append('#[schemars(schema_with = "%s")]' % r.choice(["string_schema", "any_schema", "no_schema"]))
        elif m is None and r.random() < 0.06:
            both.append('#[schemars(with = "%s")]' % r.choice(["String", "u8"]))
        if named and allow_skip and r.random() < 0.15 and t in ("u32", "i64", "String", "bool", "Vec<u8>", "Option<String>", "Option<u8>"):
            both.append("#[serde(default)]")
        pre = ("f%d_%d: " % (n, i)) if named else ""
        f["src"] = {"a": "\n".join(both + [pre + t + ","]), "b": "\n".join(r.sample(both, len(both)) + attrs if r.random() < 0.5 else attrs + both) + "\n" + pre + t + ","}
        return f

    def fields(self, n, nf, named, me=None, skip=True):
        return [self.field(i, n, named, me, skip) for i in range(nf)]

    def host(self):
        r = self.r
        n = self.n
        self.n += 1
        name = "T%d" % n
        kind = r.choice(["struct"] * 5 + ["tuple", "newtype", "newtype", "transparent", "unit", "repr"] + ["enum"] * 6)
        attrs, ops, ta = self.meta("container") if r.random() < 0.7 else ([], [], False)
        d = {"id": n, "rust": name, "kind": kind, "ops": ops,  "fields": [], "variants": []}
        both = []
        gen = None
        if r.random() < 0.12 and kind != "repr":
            both.append("#[schemars(inline)]")
            d["inline"] = True
        deny = r.random() < 0.15
        body = {}
        if kind == "struct":
            me = None if d.get("inline") else name
            d["fields"] = self.fields(n, r.randint(1, 5), True, me)
            if deny:
                both.append("#[serde(deny_unknown_fields)]")
            flat = [x for x in self.defs if x["kind"] == "struct" and not x["ops"] and "flat" not in x and not x.get("gen")]
            if flat and r.random() < 0.2:
                d["flat"] = r.choice(flat)["id"]
            for v in "ab":
                body[v] = " {\n" + "\n".join(f["src"][v] for f in d["fields"]) + ("\n#[serde(flatten)] fl: T%d," % d["flat"] if "flat" in d else "") + "\n}\n"
        elif kind in ("tuple", "newtype"):
            d["fields"] = self.fields(n, 1 if kind == "newtype" else r.randint(2, 4), False, skip=kind == "tuple")
            for v in "ab":
                body[v] = "(\n" + "\n".join(f["src"][v] for f in d["fields"]) + "\n);\n"
        elif kind == "transparent":
            both.append(r.choice(["#[serde(transparent)]", "#[schemars(transparent)]"]))
            d["fields"] = self.fields(n, 1, True, skip=False)
            d["kind"] = "newtype"
            for v in "ab":
                body[v] = " {\n" + "\n".join(f["src"][v] for f in d["fields"]) + "\n#[serde(skip)] pad: std::marker::PhantomData<u8>,\n}\n"
        elif kind == "unit":
            body["a"] = body["b"] = ";\n"
        elif kind == "repr":
            both.append("#[repr(%s)]" % r.choice(["u8", "i32", "u64"]))
            body["a"] = body["b"] = " { A%d = 1, B, C = 9 }\n" % n
        else:
            rep = r.choice(["ext", "ext", "int", "adj", "untagged"])
            d["repr"] = rep
            if rep == "int":
                both.append('#[serde(tag = "tag")]')
            elif rep == "adj":
                both.append('#[serde(tag = "tag", content = "c")]')
            elif rep == "untagged":
                both.append("#[serde(untagged)]")
            if deny:
                both.append("#[serde(deny_unknown_fields)]")
            if r.random() < 0.1 and rep != "untagged":
                both.append("#[schemars(_unstable_ref_variants)]")
                d["refv"] = True
            only_units = rep == "ext" and r.random() < 0.25
            src = {"a": "", "b": ""}
            for i in range(r.randint(1, 5)):
                style = "unit" if only_units else r.choice(["unit", "unit", "newtype", "struct", "struct"] + (["tuple"] if rep != "int" else []))
                vn = "V%d_%d" % (n, i)
                vattrs, vops, vta = self.meta("variant") if r.random() < 0.6 else ([], [], False)
                v = {"name": vn, "style": style, "ops": vops, "title_attr": vta}
                vboth = []
                if r.random() < 0.08:
                    k = r.choice(["skip_serializing", "skip_deserializing"])
                    vboth.append("#[serde(%s)]" % k)
                    v[k] = True
                m = n * 10 + i + 100000
                untagged = rep in ("ext", "int", "adj") and style == "struct" and not d.get("refv") and i and r.random() < 0.15
                if style == "newtype":
                    fs = self.fields(m, 1, False, skip=False)
                    while rep == "int" and not (fs[0]["ty"] and self.defs[fs[0]["ty"]["i"]]["kind"] == "struct" and fs[0]["ty"]["k"] == "same" and "with" not in fs[0]["src"]["a"]):
                        if not [x for x in self.defs if x["kind"] == "struct" and not x.get("gen")]:
                            fs, style = [], "unit"
                            v["style"] = "unit"
                            break
                        fs = self.fields(m, 1, False, skip=False)
                elif style == "tuple":
                    fs = self.fields(m, r.randint(2, 3), False)
                elif style == "struct":
                    fs = self.fields(m, r.randint(1, 3), True)
                    if untagged:
                        # at least one field present under both contracts, to find the variant by
                        fs[0] = self.field(0, m, True, None, allow_skip=False)
                        fs[0]["plainname"] = True
                else:
                    fs = []
                if untagged:
                    vboth.append("#[serde(untagged)]")
                    v["untagged"] = True
                v["fields"] = fs
                for x in "ab":
                    inner = "\n".join(f["src"][x] for f in fs)
                    src[x] += "\n".join(vboth + (vattrs if x == "b" else [])) + "\n" + vn + {"unit": "", "newtype": "(\n%s\n)" % inner, "tuple": "(\n%s\n)" % inner, "struct": " {\n%s\n}" % inner}[style] + ",\n"
                d["variants"].append(v)
            # the untagged ones must come last
            if any(v.get("untagged") for v in d["variants"]):
                parts = list(zip(d["variants"], *[self.split(src[x], d["variants"]) for x in "ab"]))
                parts.sort(key=lambda p: bool(p[0].get("untagged")))
                d["variants"] = [p[0] for p in parts]
                src = {"a": "".join(p[1] for p in parts), "b": "".join(p[2] for p in parts)}
            body = {x: " {\n%s}\n" % src[x] for x in "ab"}
        # without any metadata a newtype is but another name of its content: keep it a type of its own in both
        if d["kind"] == "newtype" and (attrs or d["fields"][0]["attrs"]):
            d["xplain"] = True
        kw = "enum" if kind in ("enum", "repr") else "struct"
        g = ""
        for x in "ab":
            # documentation and deprecation may stand before or after the derive
            pre = ["#[derive(%s)]" % ("JsonSchema_repr" if kind == "repr" else "JsonSchema")]
            own = both + (attrs if x == "b" else [])
            if d.get("xplain") and x == "a":
                own.append('#[schemars(extend("x-plain" = 0))]')
            helpers = [a for a in own if a.startswith(("#[schemars", "#[serde"))]
            k = [a for a in own if a not in helpers]
            split = r.randint(0, len(k)) if x == "b" else 0
            # (the order of the documentation is kept)
            text = "\n".join(k[:split] + pre + self.interleave(k[split:], helpers))
            self.code[x] += "%s\npub %s %s%s%s\n" % (text, kw, name, g, body[x])
        self.strip(d)
        self.defs.append(d)

    def interleave(self, a, b):
        out, a, b = [], list(a), list(b)
        while a or b:
            out.append((a if a and (not b or self.r.random() < 0.5) else b).pop(0))
        return out

    def split(self, src, variants):
        """source text of each variant"""
        out, rest = [], src
        for v, nxt in zip(variants, variants[1:] + [None]):
            # every variant's text ends with ",\n" at its closing line; find the end via its name
            i = rest.index("\n" + v["name"] + (" " if v["style"] == "struct" else "(" if v["style"] in ("newtype", "tuple") else ","))
            if v["style"] == "struct":
                j = rest.index("\n},\n", i) + 4
            elif v["style"] in ("newtype", "tuple"):
                j = rest.index("\n),\n", i) + 4
            else:
                j = rest.index(",\n", i) + 2
            out.append(rest[:j])
            rest = rest[j:]
        return out

    def strip(self, d):
        for f in d["fields"] + [f for v in d["variants"] for f in v["fields"]]:
            del f["src"]

    # ---- defaults
    DEFAULTS = {  # type: (sample JSON, [default functions: (name, body)])
        "u32": (3, ["9"]), "i64": (-3, ["-7"]), "String": ("s", ['"dflt".to_string()', "text()"]), "bool": (True, ["true"]), "f32": (0.5, ["0.1"]), "f64": (1.5, ["0.1"]),
        "Option<String>": (None, ['Some("o".to_string())', "None"]), "Option<u8>": (4, ["Some(1)"]), "Vec<u8>": ([1], ["vec![1, 2]"]), "(u8, String)": ([1, "t"], ['(7, "q".into())']),
        "BTreeMap<String, i32>": ({"k": 1}, ["BTreeMap::from([(\"a\".to_string(), 1)])"]), "char": ("c", ["'x'"]), "serde_json::Value": ({"v": 1}, ["serde_json::json!({\"d\": [1, null]})"]),
        "Inner": ({"p": 1, "q": "z"}, ['Inner { p: 5, q: Some("w".into()) }', "Inner::default()"]), "Choice": ("One", ["Choice::Two(3)", "Choice::One"]), "Vec<Inner>": ([], ["vec![Inner::default()]"]),
        "std::time::Duration": ({"secs": 1, "nanos": 0}, ["std::time::Duration::from_millis(1500)"]), "u64": (1, ["u64::MAX"]), "Odd": (0, ["Odd(4)"]),
    }
    SKIPS = {"Option<String>": ["Option::is_none", "Option::is_some"], "Option<u8>": ["Option::is_none"], "Vec<u8>": ["Vec::is_empty"], "String": ["String::is_empty"], "u32": ["is_zero", "is_default"], "bool": ["is_default", "always", "never"], "i64": ["is_default"], "Inner": ["is_default"], "f64": ["never"], "Vec<Inner>": ["Vec::is_empty"]}
    SERW = {"u32": ["as_text"], "i64": ["as_text"], "bool": ["as_text"], "Inner": ["as_debug"], "Option<u8>": ["as_debug"], "Vec<u8>": ["as_debug"], "String": ["as_text"]}

    def dflt(self):
        r = self.r
        n = len(self.dflts)
        name = "D%d" % n
        kind = r.choice(["struct", "struct", "struct", "cont", "cont", "contpath", "ext", "int", "adj", "untagged"])
        fields, lines, base, ctor = [], [], {}, []
        for i in range(r.randint(1, 6)):
            t = r.choice(list(self.DEFAULTS))
            sample, exprs = self.DEFAULTS[t]
            a, has = [], False
            fname = "g%d" % i
            f = {"ser": fname, "de": fname}
            x = r.random()
            if x < 0.3:
                a.append("default")
                has = True
            elif x < 0.6:
                fn = "d%d_%d" % (n, i)
                self.code["d"] += "fn %s() -> %s { %s }\n" % (fn, t, r.choice(exprs))
                a.append("default = \"%s\"" % fn)
                has = True
            if has or kind in ("cont", "contpath") or r.random() < 0.2:
                if t in self.SKIPS and r.random() < 0.35:
                    a.append("skip_serializing_if = \"%s\"" % r.choice(self.SKIPS[t]))
            if t in self.SERW and r.random() < 0.2:
                a.append("serialize_with = \"%s\"" % r.choice(self.SERW[t]))
            if r.random() < 0.1:
                a.append("skip_serializing")
                f["skip_ser"] = True
            elif r.random() < 0.1:
                a.append("skip_deserializing")
                f["skip_de"] = has = True
            if r.random() < 0.1:
                f["ser"] = f["de"] = "r/%d" % i
                a.append("rename = \"r/%d\"" % i)
            elif r.random() < 0.07:
                f["ser"] = "s%d" % i
                a.append("rename(serialize = \"s%d\")" % i)
            f["has"] = has or kind in ("cont", "contpath")
            if not f["has"]:
                base[f["de"]] = sample
            r.shuffle(a)
            extra = []
            if r.random() < 0.15:
                extra.append(r.choice(['#[schemars(title = "t", extend("x-k" = 1))]', "/// described", '#[schemars(example = 5)]', '#[schemars(extend("default" = "decoy"))]' if f["has"] and not f.get("skip_ser") and "skip_serializing_if" not in " ".join(a) else "/// d", "#[deprecated]"]))
            lines.append("\n".join(["#[serde(%s)]" % ", ".join(a)] * bool(a) + extra + ["%s: %s," % (fname, t)]))
            ctor.append("%s: %s" % (fname, r.choice(exprs)))
            fields.append(f)
        der = "#[derive(JsonSchema, Serialize, Deserialize)]\n"
        body = "\n".join(lines)
        d = {"kind": {"cont": "struct", "contpath": "struct"}.get(kind, kind), "rust": name, "fields": fields, "base": base}
        if kind == "struct":
            self.code["d"] += der + "pub struct %s {\n%s\n}\n" % (name, body)
        elif kind == "cont":
            self.code["d"] += der + "#[serde(default)]\npub struct %s {\n%s\n}\nimpl Default for %s { fn default() -> Self { %s { %s } } }\n" % (name, body, name, name, ", ".join(ctor))
        elif kind == "contpath":
            self.code["d"] += der + "#[serde(default = \"%s::make\")]\npub struct %s {\n%s\n}\nimpl %s { fn make() -> Self { %s { %s } } }\n" % (name, name, body, name, name, ", ".join(ctor))
        else:
            at = {"ext": "", "int": '#[serde(tag = "tag")]\n', "adj": '#[serde(tag = "tag", content = "c")]\n', "untagged": "#[serde(untagged)]\n"}[kind]
            self.code["d"] += der + at + "pub enum %s { V {\n%s\n}, W(u8, u8) }\n".replace("W(u8, u8)", "W" if kind == "int" else "W(u8, u8)") % (name, body)
        self.dflts.append(d)

    DPRE = r"""
fn is_zero(x: &u32) -> bool { *x == 0 }
fn is_default<T: Default + PartialEq>(x: &T) -> bool { *x == T::default() }
fn always<T>(_: &T) -> bool { true }
fn never<T>(_: &T) -> bool { false }
fn as_text<T: ToString, S: Serializer>(x: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("<{}>", x.to_string())) }
fn as_debug<T: std::fmt::Debug, S: Serializer>(x: &T, s: S) -> Result<S::Ok, S::Error> { s.collect_seq([format!("{x:?}")]) }
#[derive(JsonSchema, Serialize, Deserialize, Default, PartialEq, Debug)]
pub struct Inner { p: i32, #[serde(skip_serializing_if = "Option::is_none")] q: Option<String> }
#[derive(JsonSchema, Serialize, Deserialize, Default)]
pub enum Choice { #[default] One, Two(u8) }
/// Serializes as another type than the one described.
#[derive(JsonSchema, Deserialize, Default)]
pub struct Odd(u8);
impl Serialize for Odd { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&"o".repeat(self.0 as usize)) } }
/// Not serializable at all: there is no default value to show.
#[derive(JsonSchema, Default)]
pub struct Opaque(u8);
#[derive(JsonSchema)]
pub struct NoSer { #[serde(default)] a: Opaque, #[serde(default)] b: Vec<Opaque>, #[serde(default)] c: u8, #[serde(default)] d: Fails }
"""

    def program(self):
        s = PRELUDE
        for m in "ab":
            s += "pub mod %s {\nuse super::*;\n%s}\n" % (m, self.code[m])
        s += "pub mod d {\nuse super::*;\n%s%s}\n" % (self.DPRE, self.code["d"])
        s += "fn main() {\n    vh::meta::main(vec![\n"
        for d in self.defs:
            s += "        Ops::new::<a::%s, b::%s>(%d),\n" % (d["rust"], d["rust"], d["id"])
        s += "    ], vec![\n"
        for i, d in enumerate(self.dflts):
            s += "        Dflt::new::<d::%s>(%d),\n" % (d["rust"], i)
        s += "    ], |g| g.into_root_schema_for::<d::NoSer>(), r######\"%s\"######);\n}\n" % json.dumps({"defs": self.defs, "dflts": self.dflts})
        return s


def write(dirpath, nbins, seed, per, prefix="m"):
    os.makedirs(dirpath, exist_ok=True)
    names = []
    for b in range(nbins):
        w = W(random.Random(seed * 1000003 + b * 7919 + 53), b)
        for _ in range(per):
            w.host()
        for _ in range(per // 3):
            w.dflt()
        name = "%s%d" % (prefix, b)
        with open(os.path.join(dirpath, name + ".rs"), "w") as f:
            f.write(w.program())
        names.append(name)
    return names
