"""C16 programs: fields with validation attributes in every spelling and position, their un-annotated twins, and a model of the constraints."""
import json, os, random

PRELUDE = r"""#![allow(warnings)]
use schemars::JsonSchema;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::num::*;
use std::rc::Rc;
use std::sync::{Arc, LazyLock};
use vh::vals::Ops;

const ONE: usize = 1;
const TWO: usize = 2;
const MINUS_FIVE: i32 = -5;
const HALF: f64 = 0.5;
const DASHED: &str = "a-b";
const DOTS: &str = "..";
struct Limits;
impl Limits { const LOW: u32 = 2; const HIGH: u32 = 4; const RE: &'static str = "^[a-c]+$"; }
mod limits { pub const SEVEN: i64 = 7; pub const WORD: &str = "(w)"; }
fn three() -> u64 { 3 }
fn sub() -> String { "x|y".to_string() }
/// Any value with a `to_string()` method can be a regex.
struct Re(&'static str);
impl std::fmt::Display for Re { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
static DIGITS: LazyLock<Re> = LazyLock::new(|| Re("^[0-9]+$"));
fn starts() -> Re { Re("^a") }
fn filled<T: Default>() -> Option<T> { Some(T::default()) }
"""

RES = [("^a", ['"^a"', 'r"^a"', "starts()"]), ("^[0-9]+$", ['r"^[0-9]+$"', "*DIGITS", "&*DIGITS"]), ("^[a-c]+$", ["Limits::RE", '"^[a-c]+$"']), ("\\d{2}", ['r"\\d{2}"', '"\\\\d{2}"']),
       ("^(?:x|yy)$", ['r"^(?:x|yy)$"']), ("b$", ['concat!("b", "$")', 'r#"b$"#', 'format!("{}$", "b")']), ("", ['""'])]
SUBS = [("a-b", ['"a-b"', "DASHED"]), ("..", ['".."', "DOTS"]), ("(w)", ['"(w)"', "limits::WORD"]), ("x|y", ['"x|y"', "sub()", '"x".to_string() + "|y"', 'concat!("x", "|", "y")']), ("a#b&c~d", ['"a#b&c~d"', 'r"a#b&c~d"']), ("\\d", ['"\\\\d"', 'r"\\d"']),
        ("^$", ['"^$"']), ("é{2}", ['"é{2}"']), ("[a]", ['r#"[a]"#', '"[a]".to_string()']), ("a*b+c?", ['"a*b+c?"']), ("/", ['"/"']), ("\"q'", ['"\\"q\'"']), ("a b\tc", ['"a b\\tc"']), ("日本", ['"日本"']), ("{}", ['"{}"']), ("<&>", ['"<&>"']), ("-", ["'-'", '"-"']), ("1", ["1", '"1"', "'1'"])]
FMTS = {"email": "email", "url": "uri", "ip": "ip", "ipv4": "ipv4", "ipv6": "ipv6"}
INTS = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1),
        "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1)}

SIMPLE = set(INTS) | {"String", "bool", "f32", "f64", "char"}


class W:
    def __init__(self, r, tag):
        self.r, self.tag, self.n, self.code, self.hosts = r, tag, 0, "", []

    # ---- types: (rust text, model)
    def leaf(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return r.choice(["String", "String", "&'static str", "Box<str>", "Cow<'static, str>", "Arc<str>", "std::path::PathBuf"]), {"k": "str"}
        if x < 0.45:
            return "char", {"k": "char"}
        if x < 0.72:
            t = r.choice(list(INTS))
            lo, hi = INTS[t]
            return t, {"k": "int", "lo": lo, "hi": hi}
        if x < 0.78:
            t = r.choice(["u8", "u16", "u32", "i64"])
            lo, hi = INTS[t]
            m = {"k": "int", "lo": 1 if t[0] == "u" else lo, "hi": hi}
            if t[0] == "i":
                m["nz"] = True
            return r.choice(["NonZero%s" % t.upper(), "NonZero<%s>" % t]), m
        if x < 0.9:
            return r.choice(["f64", "f64", "f32"]), {"k": "float"}
        return "bool", {"k": "bool"}

    def ty(self, d=2):
        r = self.r
        x = r.random()
        if d == 0 or x < 0.4:
            t, m = self.leaf()
        elif x < 0.72:
            it, im = self.ty(d - 1)
            c = r.choice(["Vec<%s>", "Vec<%s>", "VecDeque<%s>", "LinkedList<%s>", "Box<[%s]>", "[%s; 3]", "[%s; 2]", "&'static [%s]", "Rc<[%s]>", "set"])
            if c == "set" and im["k"] in ("str", "int", "char"):
                # the elements must not serialize alike, and need no `Ord`/`Hash` for the schema
                t, m = r.choice(["BTreeSet<%s>", "HashSet<%s>"]) % it, {"k": "arr", "item": im, "set": True}
            else:
                c = "Vec<%s>" if c == "set" else c
                t, m = c % it, {"k": "arr", "item": im}
                if ";" in c:
                    m["n"] = int(c[-2])
        elif x < 0.88:
            it, im = self.ty(d - 1)
            if im["k"] == "opt":
                return it, im
            t, m = "Option<%s>" % it, {"k": "opt", "of": im}
        elif x < 0.93:
            it, im = self.ty(d - 1)
            t, m = r.choice(["BTreeMap<String, %s>", "HashMap<String, %s>"]) % it, {"k": "map", "of": im}
        elif self.hosts:
            n = r.choice(self.hosts)
            t, m = n[0], {"k": "host", "i": n[1]}
        else:
            t, m = self.leaf()
        if r.random() < 0.12 and not t.startswith("&"):
            t = r.choice(["Box<%s>", "Arc<%s>", "Rc<%s>", "Cow<'static, %s>" if t in INTS else "Box<%s>", "std::cell::RefCell<%s>"]) % t
        return t, m

    # ---- constraints on a model; returns (cons, {key: [spellings by family]})
    def num(self, v, ty=None):
        r = self.r
        al = {1: ["ONE as %s"], 2: ["TWO as %s"], -5: ["MINUS_FIVE"], 7: ["limits::SEVEN"], 3: ["three()"], 4: ["Limits::HIGH"], 0.5: ["HALF"]}.get(v, [])
        if al and r.random() < 0.4:
            a = r.choice(al)
            return a % r.choice(["usize", "u64", "i64"]) if "%" in a else a
        if isinstance(v, int) and r.random() < 0.15 and abs(v) < 1000:
            return r.choice(["%d + %d" % (v - 1, 1), "(%d)" % v, "{ %d }" % v])
        if isinstance(v, int) and r.random() < 0.1 and 0 <= v < 2**31:
            return r.choice(["0x%x" % v, "%d_u64" % v])
        if isinstance(v, int) and abs(v) >= 2**31:
            return "%d%s" % (v, "u64" if v > 0 else "i64")
        return repr(v)

    def limits(self, lo, hi, fam, float_=False):
        """min/max/equal: (cons pair, argument text)"""
        r = self.r
        a = r.choice(lo)
        b = r.choice([x for x in hi if x >= a] or [a])
        kind = r.choice(["min", "max", "both", "both", "equal", "swapped"])
        def num(v):
            t = self.num(v)
            if fam in ("schemars", "validate") and r.random() < 0.12 and "{" not in t:
                return '"%s"' % t
            return t
        if kind == "min":
            return [a, None], ["min = " + num(a)]
        if kind == "max":
            return [None, b], ["max = " + num(b)]
        if kind == "equal":
            return [a, a], ["equal = " + num(a)]
        x = ["min = " + num(a), "max = " + num(b)]
        return [a, b], x if kind == "both" else x[::-1]

    def extra(self, fam, args):
        """arguments of other libraries that carry no constraint"""
        r = self.r
        if fam == "validate" and r.random() < 0.25:
            args = args + [r.choice(['message = "no"', 'code = "c"'])]
        elif fam == "garde" and r.random() < 0.15:
            args = ["chars"] + args
        return args

    def one(self, key, m, fam):
        """(constraint for the model, attribute item text) or None where the family cannot spell it"""
        r = self.r
        base = m["of"] if m["k"] == "opt" else m
        if key == "length":
            c, a = self.limits([0, 1, 1, 2, 3], [1, 2, 3, 4, 7], fam)
            return {"len": c}, "length(%s)" % ", ".join(self.extra(fam, a))
        if key == "range":
            if base["k"] == "float":
                c, a = self.limits([-5, 0, 0.5, 1, -0.25], [0.5, 1, 7, 7.75, 1000.0], fam)
            else:
                lo, hi = base["lo"], base["hi"]
                pool = [x for x in [-128, -5, -1, 0, 1, 2, 3, 7, 10, 100, 127, 200, 300, 65535, 70000, 2**31, -2**31, 2**40, -2**40, 2**53 - 1] if lo <= x <= hi or r.random() < 0.1]
                c, a = self.limits(pool, pool, fam)
            if fam == "validate" and r.random() < 0.2:
                a = a + ['message = "m"']
            return {"range": c}, "range(%s)" % ", ".join(a)
        if key == "re":
            p, texts = r.choice(RES)
            t = r.choice(texts)
            if fam == "schemars":
                return {"re": p}, r.choice(["regex(pattern = %s)", "pattern(%s)"]) % t
            if fam == "garde":
                return {"re": p}, "pattern(%s)" % t
            paths = {"*DIGITS": "*DIGITS", "starts()": "starts()", "Limits::RE": "Limits::RE", "&*DIGITS": "*DIGITS"}
            if t not in paths:
                p, t = r.choice([("^[0-9]+$", "*DIGITS"), ("^a", "starts()"), ("^[a-c]+$", "Limits::RE")])
            t = paths[t]
            if r.random() < 0.3:
                t = '"%s"' % t
            return {"re": p}, "regex(%s)" % ", ".join(["path = " + t] + (['code = "re"'] if r.random() < 0.2 else []))
        if key == "has":
            s, texts = r.choice(SUBS)
            t = r.choice(texts)
            if fam == "validate":
                a = ["pattern = " + t] + (['message = "m, n"'] if r.random() < 0.3 else [])
                r.shuffle(a)
                return {"has": s}, "contains(%s)" % ", ".join(a)
            if fam == "garde":
                return {"has": s}, "contains(%s)" % t
            return {"has": s}, r.choice(["contains(pattern = %s)", "contains(%s)"]) % t
        if key == "fmt":
            f = r.choice(["email", "url"] if fam == "validate" else list(FMTS))
            return {"fmt": FMTS[f]}, f + ('(message = "bad", code = "x")' if fam == "validate" and r.random() < 0.3 else "")
        if key == "required":
            return {"required": True}, "required" + (r.choice(['(message = "bad")', '(code = "c", message = "m")']) if fam == "validate" and r.random() < 0.3 else "")
        if key == "inner":
            if fam == "validate":
                return None
            c, items = {}, []
            item = base["item"]
            ib = item["of"] if item["k"] == "opt" else item
            for k in self.keys(item):
                if k == "required":
                    continue
                x = self.one(k, item, fam)
                if x:
                    c.update(x[0])
                    items.append(x[1])
            if not items:
                return None
            return {"inner": c}, "inner(%s)" % ", ".join(items)
        raise KeyError(key)

    def keys(self, m):
        r = self.r
        base = m["of"] if m["k"] == "opt" else m
        out = []
        if m["k"] == "opt" and r.random() < 0.45:
            out.append("required")
        k = base["k"]
        if k in ("str", "char"):
            if r.random() < 0.55:
                out.append("length")
            if r.random() < 0.6:
                out.append(r.choice(["re", "has"]))
            if k == "str" and r.random() < 0.25:
                out.append("fmt")
        elif k == "arr":
            if r.random() < 0.6:
                out.append("length")
            if base["item"]["k"] in ("str", "char", "int", "float", "arr", "opt") and r.random() < 0.6:
                out.append("inner")
        elif k in ("int", "float"):
            if r.random() < 0.8:
                out.append("range")
        r.shuffle(out)
        return out

    def annotate(self, m):
        """(cons, attribute lines) for one field"""
        r = self.r
        cons, items = {}, {"schemars": [], "validate": [], "garde": []}
        fam0 = r.choice(["schemars", "validate", "garde"])
        for k in self.keys(m):
            fam = fam0 if r.random() < 0.75 else r.choice(list(items))
            if k == "inner" and fam == "validate":
                fam = "garde"
            x = self.one(k, m, fam)
            if not x:
                continue
            if k == "inner" and "inner" in cons:
                continue
            cons.update(x[0])
            items[fam].append(x[1])
            # a different constraint of the same kind in a spelling of lower priority is overridden
            if fam == "schemars" and k not in ("required", "inner") and r.random() < 0.2:
                f2 = r.choice(["validate", "garde"])
                y = self.one({"re": "has", "has": "re"}.get(k, k) if r.random() < 0.5 else k, m, f2)
                if y:
                    items[f2].append(y[1])
        # items of the other libraries that schemars has no use for
        if items["validate"] and r.random() < 0.3:
            items["validate"].append(r.choice(["nested", 'custom(function = "f", message = "m")', 'does_not_contain(pattern = "zz")', "credit_card", "non_control_character", 'must_match(other = "x")']))
        if items["garde"] and r.random() < 0.3:
            items["garde"].append(r.choice(["ascii", "custom(|v, _| Ok(()))", "dive", 'prefix("zz")', "alphanumeric", "skip", 'suffix(".")', 'rename("n")']))
        if r.random() < 0.1:
            items["schemars"].append(r.choice(['title = "T"', 'description = "min 3"', 'example = 5', 'extend("x-min" = 3)']))
        lines = []
        for fam in r.sample(list(items), 3):
            xs = items[fam]
            if not xs:
                continue
            if fam != "validate" or r.random() < 0.7:
                r.shuffle(xs)
            if len(xs) > 1 and r.random() < 0.4:
                lines += ["#[%s(%s)]" % (fam, x) for x in xs]
            else:
                lines.append("#[%s(%s)]" % (fam, ", ".join(xs)))
        return cons, lines

    def host(self):
        r = self.r
        n = self.n
        self.n += 1
        name = "T%d" % n
        kind = r.choice(["struct"] * 6 + ["tuple", "tuple", "newtype", "transparent", "ext", "adj", "int", "untagged", "extnew", "exttuple", "adjnew", "untaggednew", "generic", "generic"])
        nf = 1 if kind in ("newtype", "transparent", "extnew", "adjnew", "untaggednew") else r.randint(2, 5)
        fields, lines, plain = [], [], []
        gen = None
        for i in range(nf):
            t, m = self.ty()
            if kind == "generic" and i == 0:
                while m["k"] not in ("str", "arr", "int", "float"):
                    t, m = self.ty(1)
                gen, rt = t, r.choice(["T", "T", "Option<T>"])
                if rt != "T":
                    m = {"k": "opt", "of": m}
            else:
                rt = t
            cons, attrs = self.annotate(m) if r.random() < 0.8 else ({}, [])
            pattrs = []
            # redirected to another type: the attributes apply to the schema shown
            if rt == t and r.random() < 0.06 and "'" not in t and kind != "transparent":
                a = '#[%s(with = "%s")]' % (r.choice(["schemars", "schemars"]), t)
                attrs, pattrs, rt = attrs + [a], [a], r.choice(["u8", "bool", "()", "Vec<String>"])
            # a default for a required member satisfies the requirement
            filled = kind == "struct" and rt == t and t.startswith("Option<") and (t[7:-1] in SIMPLE or t[7:-1].startswith("Vec<")) and r.random() < 0.4
            if filled:
                cons, attrs = {"required": True}, ["#[%s(required)]" % r.choice(["schemars", "validate", "garde"])]
                a = '#[serde(default = "filled::<%s>")]' % t[7:-1]
                attrs, pattrs = r.sample(attrs + [a], len(attrs) + 1), [a]
            fname = "f%d_%d" % (n, i)
            f = {"name": fname, "ty": m, "cons": cons, "attrs": bool(attrs), "filled": filled}
            fields.append(f)
            named = kind not in ("tuple", "newtype", "extnew", "exttuple", "adjnew", "untaggednew")
            pre = (fname + ": ") if named else ""
            lines.append("\n    ".join(attrs + [pre + rt + ","]))
            plain.append("\n    ".join(pattrs + [pre + rt + ","]))
        # a flattened required/optional host
        flat = None
        if kind == "struct" and self.flat_ok() and r.random() < 0.2:
            h = r.choice(self.flat_ok())
            req = r.random() < 0.6
            a = "#[%s(required)]" % r.choice(["schemars", "validate", "garde"])
            lines.append(("%s\n    " % a if req else "") + "#[serde(flatten)]\n    fl: Option<%s>," % h[0])
            plain.append("#[serde(flatten)]\n    fl: Option<%s>," % h[0])
            flat = {"i": h[1], "required": req}
        def text(nm, ls):
            j = "\n    ".join(ls)
            d = "#[derive(JsonSchema)]\n"
            if kind in ("struct",):
                return d + "struct %s {\n    %s\n}\n" % (nm, j)
            if kind == "generic":
                return d + "struct %s<T> {\n    %s\n}\n" % (nm, j)
            if kind == "tuple":
                return d + "struct %s(\n    %s\n);\n" % (nm, j)
            if kind == "newtype":
                return d + "struct %s(\n    %s\n);\n" % (nm, j)
            if kind == "transparent":
                return d + "#[serde(transparent)]\nstruct %s {\n    %s\n}\n" % (nm, j)
            tag = {"e": "", "i": '#[serde(tag = "tag")]\n', "a": '#[serde(tag = "t", content = "c")]\n', "u": "#[serde(untagged)]\n"}[kind[0]]
            body = "(\n    %s\n)" % j if kind.endswith(("new", "tuple")) else " {\n    %s\n}" % j
            other = "" if kind[0] == "u" else " Other,"
            return d + tag + "enum %s { V%s,%s }\n" % (nm, body, other)
        self.code += text(name, lines)
        self.code += "mod p%d { use super::*;\n%s}\n" % (n, text(name, plain).replace("struct T%d" % n, "pub struct T%d" % n).replace("enum T%d" % n, "pub enum T%d" % n))
        rust = name + ("<%s>" % gen if gen else "")
        self.defs.append({"kind": kind, "fields": fields, "flat": flat, "rust": rust})
        self.hosts.append((rust, n, kind))
        self.ops += "        Ops::new::<%s, p%d::%s>(%d),\n" % (rust, n, rust, n)

    def flat_ok(self):
        return [h for h in self.hosts if self.defs[h[1]]["kind"] == "struct" and not self.defs[h[1]]["flat"]]

    def run(self, per):
        self.defs, self.ops = [], ""
        for _ in range(per):
            self.host()


def write(dirpath, nbins, seed, per, prefix="v"):
    os.makedirs(dirpath, exist_ok=True)
    names = []
    for b in range(nbins):
        w = W(random.Random(seed * 1000003 + b * 7919 + 31), b)
        w.run(per)
        # flattened members must not clash with the host's own
        text = PRELUDE + w.code
        name = "%s%d" % (prefix, b)
        model = json.dumps(w.defs)
        with open(os.path.join(dirpath, name + ".rs"), "w") as f:
            f.write(text + "fn main() {\n    vh::vals::main(vec![\n%s    ], r###\"%s\"###);\n}\n" % (w.ops, model))
        names.append(name)
    return names
