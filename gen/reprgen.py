"""C24 programs: fieldless enums with every integer representation and all kinds of discriminants."""
import os, random

PRELUDE = """#![allow(warnings)]
use schemars::{JsonSchema, JsonSchema_repr};
use serde::{Deserialize, Serialize};
use serde_repr::{Deserialize_repr, Serialize_repr};
use std::collections::BTreeMap;
use vh::repr::Ops;
const BASE: i8 = 7;
const fn twice(x: i64) -> i64 { x + x }

"""
REPRS = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**64 - 1),
         "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
         "isize": (-2**63, 2**63 - 1), "i128": (-2**63, 2**64 - 1)}


def literal(r, v, ty):
    def lit(n):
        x = r.random()
        if x < 0.6:
            return str(n)
        if x < 0.7:
            return hex(n)
        if x < 0.8:
            return bin(n)
        if x < 0.9:
            return "%s_%s" % (str(n)[:1], str(n)[1:])
        return "%d%s" % (n, ty)
    if v < 0:
        # the magnitude of the minimum does not fit with a suffix
        return "-" + (str(-v) if -v > 100 else lit(-v))
    if v and v & (v - 1) == 0 and r.random() < 0.3:
        return "1 << %d" % (v.bit_length() - 1)
    if v == 7 and r.random() < 0.5:
        return "BASE as %s" % ty
    if v % 2 == 0 and v < 2**40 and r.random() < 0.15:
        return "twice(%d) as %s" % (v // 2, ty)
    if 32 < v < 127 and chr(v).isalnum() and r.random() < 0.5:
        return "b'%s' as %s" % (chr(v), ty)
    return lit(v)


def enum(r, n, ty):
    lo, hi = REPRS[ty]
    k = r.choice([1, 1, 2, 3, 4, 6, 10])
    used, vs, cur = set(), [], -1
    pool = [lo, hi, 0, 1, 7, hi // 2, hi // 2 + 1, lo // 2, lo + 1, hi - 1, 127, 128, 255, 256, 65, 97, 2**31, 2**32, 2**53 + 1, 2**63 - 1, 2**63, -1, -2]
    for i in range(k):
        nxt = cur + 1
        explicit = r.random() < 0.6 or nxt > hi or nxt in used
        if explicit:
            for _ in range(60):
                v = r.choice(pool) if r.random() < 0.6 else r.randint(lo, hi) if r.random() < 0.5 else r.randint(max(lo, -20), min(hi, 120))
                if lo <= v <= hi and v not in used:
                    break
            else:
                break
        else:
            v = nxt
        used.add(v)
        cur = v
        name = r.choice(["V%d", "Aaa%dBb", "r#type", "__x%d", "É%d", "snake_%d"])
        name = name % i if "%" in name else (name if all(x[0] != name for x in vs) else "W%d" % i)
        attr = r.choice([""] * 6 + ["/// variant docs\n    ", "#[deprecated]\n    ", '#[serde(rename = "re")]\n    ', '#[schemars(title = "t")]\n    ', "#[allow(dead_code)]\n    ", "#[serde(skip)]\n    ", "#[serde(skip_serializing)]\n    "])
        vs.append((name, v, literal(r, v, ty) if explicit else None, attr))
    repr_ = r.choice(["#[repr(%s)]"] * 5 + ["#[repr(align(8))]\n#[repr(%s)]", "#[repr(%s, align(2))]", "#[repr(align(4), %s)]", "#[allow(dead_code)]\n#[repr(%s)]\n#[doc(hidden)]"]) % ty
    meta = r.choice([""] * 5 + ["/// Enum docs\n", '#[schemars(title = "Title", description = "d")]\n', '#[serde(rename = "Re%d")]\n' % n, '#[schemars(rename = "Rs %d")]\n' % n, '#[schemars(extend("x-k" = [1]))]\n',
                             "#[deprecated]\n", "#[schemars(inline)]\n", '#[schemars(example = 1, extend("x-ext" = "v"))]\n'])
    vis = r.choice(["pub ", ""])
    s = "#[derive(JsonSchema_repr, Serialize_repr, Deserialize_repr)]\n%s%s\n%senum E%d {\n" % (meta, repr_, vis, n)
    for name, v, e, attr in vs:
        s += "    %s%s%s,\n" % (attr, name, "" if e is None else " = " + e)
    s += "}\n#[derive(JsonSchema, Serialize, Deserialize)]\n%sstruct H%d { e: E%d, o: Option<E%d>, v: Vec<E%d>, #[serde(skip_serializing_if = \"Option::is_none\")] s: Option<Box<E%d>> }\n" % (vis, n, n, n, n, n)
    return s, "E%d" % n, [x[0] for x in vs], sorted(x[1] for x in vs)


def write(dirpath, nbins, seed, per, prefix="r"):
    os.makedirs(dirpath, exist_ok=True)
    names = []
    for b in range(nbins):
        r = random.Random(seed * 1000003 + b * 7919 + 29)
        out, ops = PRELUDE, ""
        tys = list(REPRS) * (per // len(REPRS) + 1)
        for n in range(per):
            text, ty, vs, vals = enum(r, n, tys[n])
            out += text + "\n"
            ops += "        Ops::new::<%s, H%d>(\"%s\", %s, || vec![%s], &[%s]),\n" % (
                ty, n, ty, '"%s"' % tys[n], ", ".join("%s::%s" % (ty, v) for v in vs), ", ".join("%d" % v for v in vals))
        out += "fn main() {\n    vh::repr::main(vec![\n%s    ]);\n}\n" % ops
        name = "%s%d" % (prefix, b)
        with open(os.path.join(dirpath, name + ".rs"), "w") as f:
            f.write(out)
        names.append(name)
    return names
