"""C26 programs: `mod a` flattens random trees of structs (maps, an enum) into hosts, `mod b`
writes the very same members in place, in another order; plus hosts of flattened maps with
restricted keys, probed with right and wrong values at those keys."""
import os, random
from corpus import rule_field, FIELD_RULES, q

PRELUDE = """#![allow(warnings)]
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};
use std::collections::*;
use std::rc::Rc;
use vh::gen::Arb;
use vh::twins::{Probe, Top};
use vh::Rng;
fn always<T: ?Sized>(_: &T) -> bool { true }
fn never<T: ?Sized>(_: &T) -> bool { false }

#[derive(JsonSchema)]
pub struct Leaf { pub x: u8, pub y: Option<String> }
#[derive(JsonSchema)]
#[serde(tag = "kind")]
pub enum Kind { One { v: i8 }, Two }
#[derive(JsonSchema)]
pub struct Rec { pub rec: Option<Box<Rec>>, pub n: u32 }
#[derive(JsonSchema)]
pub enum Ext { /// unit with docs
    ExtA, ExtB { z: u8 }, ExtC(Leaf), ExtD }
#[derive(JsonSchema)]
#[serde(tag = "int_tag")]
pub enum Int { IntA, IntB { z: u8 }, IntC(Leaf) }
#[derive(JsonSchema)]
#[serde(tag = "adj_tag", content = "adj_content")]
pub enum Adj { AdjA, AdjB { z: u8 }, AdjC(Vec<u8>) }
#[derive(JsonSchema)]
#[serde(untagged)]
pub enum Unt { UntA { ua: u8, ub: bool }, UntB { uc: String }, UntC(Leaf) }
#[derive(JsonSchema)]
pub enum Units { UnitA, UnitB, UnitC }
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, JsonSchema, Serialize)]
pub enum EnumKey { EkA, EkB, EkC }
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, JsonSchema, Serialize)]
#[serde(transparent)]
pub struct PatKey(#[schemars(regex(pattern = "^k_"))] pub String);
impl vh::gen::Key for EnumKey { fn key(r: &mut Rng) -> Self { match r.below(3) { 0 => EnumKey::EkA, 1 => EnumKey::EkB, _ => EnumKey::EkC } } }
impl vh::gen::Key for PatKey { fn key(r: &mut Rng) -> Self { PatKey(format!("k_{}", r.below(5))) } }

"""

LEAF = ["u8", "i32", "bool", "String", "f64", "char", "Option<u8>", "Option<String>", "Vec<u8>", "Leaf", "Kind", "Rec", "Option<Leaf>",
        "Vec<Rec>", "BTreeMap<String, u8>", "(u8, String)", "[bool; 2]", "serde_json::Value", "()", "Box<Rec>", "Option<Kind>"]
MAPS = ["BTreeMap<String, u8>", "HashMap<String, Leaf>", "BTreeMap<String, serde_json::Value>", "BTreeMap<u16, bool>", "BTreeMap<i8, Leaf>",
        "BTreeMap<PatKey, String>", "Option<BTreeMap<String, bool>>"]


class Flat:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.a, self.b = [], []
        self.tops_a, self.tops_b, self.probes = [], [], []
        self.x = []

    def uid(self):
        self.n += 1
        return self.n

    def member(self, opt, rules):
        """(line for a, line for b); `opt` when inside a flattened Option."""
        r = self.r
        ident = r.choice(["m%d", "alpha_%d_beta", "g%d_x"]) % self.uid()
        ser, de = rule_field(rules[0], ident), rule_field(rules[1], ident)
        ty = r.choice(LEAF)
        at, bt = [], []
        meta = ""
        if r.random() < 0.15:
            nm = r.choice(["r%d", "re-%d", "na me%d", "x/y~%d"]) % self.uid()
            at.append("rename = %s" % q(nm))
            ser = de = nm
        if r.random() < 0.12:
            at.append("default")
            bt.append("default")
            if ty in ("Leaf", "Kind", "Rec", "Box<Rec>"):
                ty = "u8"
        x = r.random()
        if x < 0.06:
            at.append("skip_serializing")
            bt.append("skip_serializing")
        elif x < 0.12 and ty not in ("Leaf", "Kind", "Rec", "Box<Rec>"):
            at.append("skip_deserializing")
            bt.append("skip_deserializing")
        elif x < 0.2:
            at.append('skip_serializing_if = "never"')
            bt.append('skip_serializing_if = "never"')
        if r.random() < 0.15:
            meta = r.choice(["/// Some docs\n", '#[schemars(title = "T", extend("x-k" = 1))]\n', "#[deprecated]\n", "#[schemars(range(min = 3), length(max = 4))]\n"])
        if opt:
            # in place: may be absent in either direction
            bt = [t for t in bt if not t.startswith("skip_serializing_if")]
            if "default" in at or "skip_deserializing" in at:
                bt.append('skip_serializing_if = "never"')  # keeps showing the default
            else:
                if ty in ("Leaf", "Kind", "Rec", "Box<Rec>"):
                    ty = "Vec<u8>"
                bt += ["default", 'skip_serializing_if = "always"']
        bt.append("rename(serialize = %s, deserialize = %s)" % (q(ser), q(de)))
        line = lambda attrs, id_: meta + ("#[serde(%s)]\n" % ", ".join(attrs) if attrs else "") + "%s: %s" % (id_, ty)
        return line(at, ident), line(bt, ident)

    def rule(self):
        r = self.r
        if r.random() < 0.6:
            return (None, None), ""
        a, b = r.choice(FIELD_RULES), r.choice(FIELD_RULES)
        if r.random() < 0.6:
            return (a, a), "rename_all = %s" % q(a)
        return (a, b), "rename_all(serialize = %s, deserialize = %s)" % (q(a), q(b))

    def members(self, depth, opt, rules, budget):
        """Returns (lines of a, flat lines of b). budget: which special parts may still be used."""
        r = self.r
        la, lb = [], []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            x, y = self.member(opt, rules)
            la.append(x)
            lb.append(y)
        kids = r.choice([0, 1, 1, 2, 2, 3]) if depth > 0 else 0
        for _ in range(kids):
            o = (not budget["deny"]) and r.random() < 0.2
            ru, ra = self.rule()
            ka, kb = self.members(depth - 1, opt or o, ru, budget)
            n = self.struct("In", ra, ka)
            ty = n
            if r.random() < 0.25:
                ty = r.choice(["Box<%s>", "Rc<%s>", "std::sync::Arc<%s>", "Wrap<%s>"]) % ty
            if o:
                ty = "Option<%s>" % ty
            la.append("#[serde(flatten)]\nflat_%d: %s" % (self.uid(), ty))
            lb += kb
        while not budget["deny"] and budget["enum"] and r.random() < budget["enum_rate"]:
            # inside a flattened Option it is optional
            e = budget["enum"].pop(r.randrange(len(budget["enum"])))
            for l, o in ((la, r.random() < 0.4), (lb, None)):
                keep = o if o is not None else keep
                l.append("#[serde(flatten)]\nenum_%d: %s" % (self.uid(), "Option<%s>" % e if keep or (opt and o is None) else e))
        if not budget["deny"] and not opt:
            if budget["map"] and r.random() < 0.25:
                budget["map"] = False
                e = r.choice(MAPS)
                for l in (la, lb):
                    l.append("#[serde(flatten)]\nmap_%d: %s" % (self.uid(), e))
            if budget["ekmap"] and r.random() < 0.2:
                # a map with enumerated keys is the same as optional members of those names
                budget["ekmap"] = False
                e = r.choice(["u8", "BTreeMap<String, Leaf>", "Vec<Kind>"])
                la.append("#[serde(flatten)]\nekmap_%d: BTreeMap<EnumKey, %s>" % (self.uid(), e))
                for k in ("EkA", "EkB", "EkC"):
                    lb.append('#[serde(default, skip_serializing_if = "always", rename = "%s")]\nek_%d: %s' % (k, self.uid(), e))
        r.shuffle(la)
        r.shuffle(lb)
        return la, lb

    def struct(self, prefix, attr, lines, out=None, name=None, params=""):
        n = name or "%s%d" % (prefix, self.uid())
        s = "#[derive(JsonSchema)]\n" + ("#[serde(%s)]\n" % attr if attr else "")
        s += "pub struct %s%s {\n%s}\n" % (n, params, "".join(self.vis(l) + ",\n" for l in lines))
        (self.a if out is None else out).append(s)
        return n

    @staticmethod
    def vis(l, v="pub "):
        head, _, tail = l.rpartition("\n")
        return (head + "\n" if head else "") + "    " + v + tail

    def host(self, i):
        r = self.r
        deny = r.random() < 0.15
        # enums of distinct keys
        budget = dict(deny=deny, enum=["Ext", "Units", "Adj", r.choice(["Int", "Unt"])], enum_rate=r.choice([0, 0.1, 0.2, 0.4, 0.6]), map=True, ekmap=True)
        name = "Host%d" % i
        kind = r.choice(["struct", "struct", "struct", "generic", "external", "internal", "adjacent", "untagged"])
        ru, ra = self.rule()
        la, lb = self.members(r.choice([1, 2, 2, 3]), False, ru, budget)
        attrs = ["deny_unknown_fields"] if deny else []
        if kind == "struct":
            self.struct("", ", ".join(attrs + [ra] if ra else attrs), la, name=name)
            self.struct("", ", ".join(attrs), lb, out=self.b, name=name)
            ta = tb = name
        elif kind == "generic":
            # the flattened part is a parameter
            ka, kb = self.members(1, False, (None, None), budget)
            inner = self.struct("In", "", ka)
            at = ", ".join(attrs + [ra] if ra else attrs)
            self.struct("", at, la + ["#[serde(flatten)]\npart: A"], name=name, params="<A>")
            lb = lb + kb
            r.shuffle(lb)
            self.struct("", ", ".join(attrs), lb, out=self.b, name=name)
            ta, tb = "%s<%s>" % (name, inner), name
        else:
            tag = {"external": [], "internal": ['tag = "host_tag"'], "adjacent": ['tag = "host_tag"', 'content = "host_content"'], "untagged": ["untagged"]}[kind]
            va = "#[serde(%s)]\n" % ra if ra else ""
            for lines, out, v in ((la, self.a, va), (lb, self.b, "")):
                s = "#[derive(JsonSchema)]\n" + ("#[serde(%s)]\n" % ", ".join(attrs + tag) if attrs + tag else "")
                s += "pub enum %s { Other, %s Var {\n%s} }\n" % (name, v, "".join(self.vis(l, "") + ",\n" for l in lines))
                out.append(s)
            ta = tb = name
        self.tops_a.append((i, ta, ta))
        self.tops_b.append((i, tb, "%s written in place" % tb))

    # hosts of flattened maps with restricted keys, with probes
    def probe(self, i):
        r = self.r
        vals = {"u8": ("7", '"no"'), "bool": ("true", "1"), "String": ('"s"', "[]"), "Vec<u8>": ("[1]", "{}"), "Leaf2": ('{"x": 1}', '{"x": "1"}'), "[u8; 2]": ("[1, 2]", "[1]")}
        kinds = r.sample(["int", "pat", "enum"], r.choice([1, 2, 2, 3]))
        lines, probes = [], []
        for k in kinds:
            v = r.choice(list(vals))
            key = {"int": r.choice(["u8", "i32", "u64"]), "pat": "PatKey", "enum": "EnumKey"}[k]
            ty = "BTreeMap<%s, %s>" % (key, v)
            x = r.random()
            if x < 0.2:
                ty = "Option<%s>" % ty
            elif x < 0.5:
                # reached through a flattened struct
                n = "Pin%d" % self.uid()
                self.x.append("#[derive(JsonSchema, Serialize)]\npub struct %s { pub pm_%d: u8, #[serde(flatten)] pub pmap: %s }\nimpl Arb for %s { fn arb(r: &mut Rng) -> Self { %s { pm_%d: Arb::arb(r), pmap: Arb::arb(r) } } }\n"
                              % (n, self.n, ty, n, n, self.n))
                ty = n
            lines.append(("#[serde(flatten)] pub f%d" % self.uid(), ty))
            for key in {"int": ["0", "5", "77"] + (["-3"] if "i32" in key else []), "pat": ["k_", "k_zz"], "enum": ["EkA", "EkC"]}[k]:
                probes.append((key, vals[v][0], vals[v][1]))
        for _ in range(r.choice([0, 1, 2])):
            n = "own_%d" % self.uid()
            v = r.choice(list(vals))
            lines.append(("pub " + n, v))
        if r.random() < 0.3:
            lines.append(("#[serde(flatten)] pub ext_%d" % self.uid(), r.choice(["ExtP", "IntP", "Option<IntP>"])))
        r.shuffle(lines)
        name = "Probe%d" % i
        names = [l.split()[-1] for l, _ in lines]
        self.x.append("#[derive(JsonSchema, Serialize)]\npub struct %s {\n%s}\nimpl Arb for %s { fn arb(r: &mut Rng) -> Self { %s { %s } } }\n" % (
            name, "".join("    %s: %s,\n" % l for l in lines), name, name, ", ".join("%s: Arb::arb(r)" % n for n in names)))
        self.probes.append((name, probes))

    def program(self, nhosts, nprobes):
        for i in range(nhosts):
            self.host(i)
        for i in range(nprobes):
            self.probe(i)
        s = PRELUDE + XTYPES
        for m, body, tops in (("a", self.a, self.tops_a), ("b", self.b, self.tops_b)):
            s += "pub mod %s {\nuse super::*;\n%s\npub fn tops() -> Vec<Top> { vec![\n" % (m, "\n".join(body))
            s += "".join("    Top::new::<%s>(%d, %s),\n" % (t, i, q(l)) for i, t, l in tops)
            s += "] }\n}\n"
        s += "pub mod x {\nuse super::*;\n" + "\n".join(self.x) + "\n}\n"
        s += "fn main() { vh::twins::flat_main(a::tops(), b::tops(), vec![\n"
        for name, ps in self.probes:
            s += "    Probe::new::<x::%s>(%s, &[%s]),\n" % (name, q(name), ", ".join("(%s, %s, %s)" % (q(k), q(g), q(b)) for k, g, b in ps))
        return s + "]); }\n"


XTYPES = """
#[derive(JsonSchema)]
#[serde(transparent)]
pub struct Wrap<X>(pub X);
#[derive(JsonSchema, Serialize)]
pub struct Leaf2 { pub x: u8 }
impl Arb for Leaf2 { fn arb(r: &mut Rng) -> Self { Leaf2 { x: Arb::arb(r) } } }
#[derive(JsonSchema, Serialize)]
pub enum ExtP { ExtPA { z: u8 }, ExtPB }
impl Arb for ExtP { fn arb(r: &mut Rng) -> Self { if bool::arb(r) { ExtP::ExtPB } else { ExtP::ExtPA { z: Arb::arb(r) } } } }
#[derive(JsonSchema, Serialize)]
#[serde(tag = "p_tag")]
pub enum IntP { IntPA { zz: u8 }, IntPB }
impl Arb for IntP { fn arb(r: &mut Rng) -> Self { if bool::arb(r) { IntP::IntPB } else { IntP::IntPA { zz: Arb::arb(r) } } } }
"""


def write(dirpath, nbins, seed, nhosts, nprobes, prefix="f"):
    os.makedirs(dirpath, exist_ok=True)
    names = []
    for i in range(nbins):
        n = "%s%d" % (prefix, i)
        with open(os.path.join(dirpath, n + ".rs"), "w") as f:
            f.write(Flat(seed * 1000003 + i * 7919 + 53).program(nhosts, nprobes))
        names.append(n)
    return names
