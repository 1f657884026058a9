"""Monitor of C23: the documents of the same types from builds of schemars with different features."""
import json
import os
import re
import shutil
import subprocess

import corpus
import libs

# feature set of the harness -> what it stands for
SETS = [("default", ["std"]), ("order", ["std", "order"]), ("nostd", []), ("nostd-order", ["order"]), ("raw", ["std", "raw"])]
# types that the full harness defines itself
HARNESS_ONLY = re.compile(r"\bKey[A-Z]\w*")
STD_ONLY = re.compile(r"\b(HashMap|HashSet|PathBuf|Path|OsString|OsStr|CString|CStr|Ipv4Addr|Ipv6Addr|IpAddr|SocketAddr\w*|Mutex|RwLock|SystemTime|Bound|Range\w*|Duration|RawValue)\b")
START = ["$id", "$schema", "title", "description", "type", "format", "properties"]
END = ["$defs", "definitions"]
MAPS = {"properties", "patternProperties", "dependentSchemas", "$defs", "definitions"}
SUBS = {"additionalProperties", "unevaluatedProperties", "items", "prefixItems", "contains", "not", "if", "then", "else", "oneOf", "anyOf", "allOf", "propertyNames", "unevaluatedItems", "additionalItems", "contentSchema"}


class Flt(str):
    pass


def load(t):
    return json.loads(t, parse_float=lambda s: Flt(repr(float(s))))


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def first_diff(a, b, at=""):
    if type(a) is type(b) and isinstance(a, dict):
        if a.keys() != b.keys():
            return "%s: keys %s / %s" % (at or "/", sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        for k in a:
            if not eq(a[k], b[k]):
                return first_diff(a[k], b[k], at + "/" + k)
    if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not eq(x, y):
                return first_diff(x, y, "%s/%d" % (at, i))
    return "%s: %s / %s" % (at or "/", json.dumps(a)[:120], json.dumps(b)[:120])


def keyword_order(s, at=""):
    """First schema whose well-known keywords are not where the documents put them."""
    if isinstance(s, list):
        for i, x in enumerate(s):
            r = keyword_order(x, "%s/%d" % (at, i))
            if r:
                return r
    if not isinstance(s, dict):
        return None
    ks = list(s)
    rank = {k: i for i, k in enumerate(START)}
    want = [k for k in START if k in s] + [k for k in ks if k not in rank and k not in END] + [k for k in END if k in s]
    if ks != want:
        return "%s: keywords in order %s" % (at or "/", ks)
    for k, v in s.items():
        if k in MAPS and isinstance(v, dict):
            for n, x in v.items():
                r = keyword_order(x, "%s/%s/%s" % (at, k, n))
                if r:
                    return r
        elif k in SUBS:
            r = keyword_order(v, "%s/%s" % (at, k))
            if r:
                return r
    return None


def strip(t):
    while t["k"] in ("opt", "wrap"):
        t = t["t"]
    return t


def members(defs, fields, con, depth=0):
    """Names of the members in declaration order; those of flattened structs in place."""
    out = []
    skip, name = ("skip_ser", "ser") if con == "Serialize" else ("skip_de", "de")
    for f in fields:
        if f.get(skip):
            continue
        if not f.get("flatten"):
            out.append(f[name])
            continue
        t = strip(f["ty"])
        if t["k"] != "ref" or depth > 5:
            continue
        d = defs[t["id"]]
        b = d["body"]
        if "struct" in b and b["struct"].get("style", "named") == "named" and not d["transparent"] and "from" not in d and "into" not in d:
            out += members(defs, b["struct"]["fields"], con, depth + 1)
    return out


def in_order(got, want):
    g = [k for k in got if k in set(want)]
    return g == [k for k in want if k in set(got)]


def declared(defs, d, doc, con, openapi):
    """(problem or None, number of members compared)"""
    if d["transparent"] or "from" in d or "into" in d:
        return None, 0
    b, n = d["body"], 0
    if "struct" in b:
        if b["struct"].get("style", "named") != "named":
            return None, 0
        want = members(defs, b["struct"]["fields"], con)
        got = list(doc.get("properties", {}))
        if len(set(want)) != len(want):
            return None, 0
        if not in_order(got, want):
            return "members %s, declared as %s" % (got, want), len(want)
        return None, len([k for k in got if k in want]) if got != sorted(got) else 0
    e = b["enum"]
    skip, name = ("skip_ser", "ser") if con == "Serialize" else ("skip_de", "de")
    want = [v for v in e["variants"] if not v[skip] and not v["untagged"]]
    tag = e["tag"]
    alts = doc.get("oneOf") or doc.get("anyOf") or [doc]
    if tag == "untagged" or not isinstance(alts, list):
        return None, 0
    names = [v[name] for v in want]
    if len(set(names)) != len(names):
        return None, 0
    if tag == "external":
        units, others = [], []
        for a in alts:
            if "enum" in a and (len(a["enum"]) > 1 or not openapi):
                units += [x for x in a["enum"] if isinstance(x, str)]
            elif openapi and "enum" in a:
                continue        # an only unit variant, or one that stands alone
            elif isinstance(a.get("const"), str):
                others.append(a["const"])
            elif len(a.get("properties", {})) == 1:
                others += list(a["properties"])
        for g in (units, others):
            if not in_order(g, names):
                return "variants %s, declared as %s" % (g, names), len(names)
        n = len(units) + len(others)
    else:
        t = list(tag.values())[0]
        t = t[0] if isinstance(t, list) else t
        got = [a.get("properties", {}).get(t, {}).get("const") for a in alts]
        got = [g for g in got if isinstance(g, str)]
        if not in_order(got, names):
            return "variants %s, declared as %s" % (got, names), len(names)
        n = len(got)
        for a in alts:
            v = [v for v in want if v[name] == a.get("properties", {}).get(t, {}).get("const")]
            if len(v) == 1 and v[0]["style"] == "named" and not isinstance(tag.get("adjacent"), list):
                w = members(defs, v[0]["fields"], con)
                if len(set(w)) == len(w) and not in_order([k for k in a["properties"] if k != t], [k for k in w if k != t]):
                    return "members of variant %s: %s, declared as %s" % (v[0][name], list(a["properties"]), w), n
                n += len(w)
    if tag == "external":
        for a in alts:
            for k, s in a.get("properties", {}).items() if len(a.get("properties", {})) == 1 else []:
                v = [v for v in want if v[name] == k]
                if len(v) == 1 and v[0]["style"] == "named":
                    w = members(defs, v[0]["fields"], con)
                    if len(set(w)) == len(w) and not in_order(list(s.get("properties", {})), w):
                        return "members of variant %s: %s, declared as %s" % (k, list(s.get("properties", {})), w), n
                    n += len(w)
    return None, n


def build(cx, rnd, nb, per, nl, perl):
    d0 = os.path.join(cx.dir, "src%d" % rnd)
    os.makedirs(d0)
    seed = cx.seed * 131 + rnd * 7
    names = corpus.write(d0, nb, seed, per, {"flatten": 1.6}, prefix="f%d_" % rnd)
    names += libs.write(d0, nl, seed, perl, prefix="fl%d_" % rnd)
    for n in names:
        p = os.path.join(d0, n + ".rs")
        s = open(p).read()
        if n in names[:nb]:
            # the same program for builds without the standard library's maps
            s = s.replace("HashMap", "BTreeMap").replace("HashSet", "BTreeSet")
            open(p, "w").write(s)
    got = {}
    for name, feats in SETS:
        def write(dst):
            for n in names:
                s = open(os.path.join(d0, n + ".rs")).read()
                if n not in names[:nb]:
                    s = "\n".join(ln for ln in s.split("\n") if not (ln.startswith("    x.") and (("std" not in feats and STD_ONLY.search(ln)) or ("raw" not in feats and "RawValue" in ln) or HARNESS_ONLY.search(ln))))
                else:
                    shutil.copy(os.path.join(d0, n + ".json"), dst)
                open(os.path.join(dst, n + ".rs"), "w").write(s)
            return list(names)
        try:
            bins = cx.gen_crate(write, tag="r%d-%s" % (rnd, name), lite=feats)
        except Exception as e:
            if name == "default" or "could not compile `schemars`" not in str(e):
                raise
            # it builds with the default features, so the feature set matters after all
            cx.violations.append({"sig": "does-not-build:%s" % name, "what": "schemars does not build with the feature set %s" % name, "detail": {"errors": str(e)[-3000:]}})
            continue
        for n, b in sorted(bins.items()):
            out = os.path.join(cx.dir, "docs-%s-%s.json" % (n, name))
            p = subprocess.run([b], env=dict(os.environ, VH_OUT=out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if p.returncode != 0:
                raise RuntimeError("dump of %s (%s) failed: %s" % (n, name, p.stdout.decode(errors="replace")[-2000:]))
            got.setdefault(n, {})[name] = json.load(open(out))
            os.remove(out)
    return names[:nb], got, d0


def run(cx):
    q = 0 if cx.quick else 1
    ev, nontriv, viol, samples, cnt = 0, 0, [], [], {}

    def count(k, n=1):
        cnt[k] = cnt.get(k, 0) + n

    def bad(sig, what, **detail):
        viol.append({"sig": sig, "what": what, "detail": detail})

    for rnd in range((1, 4)[q]):
        derived, got, d0 = build(cx, rnd, (5, 8)[q], (40, 60)[q], 3, (40, 90)[q])
        for n, sets in sorted(got.items()):
            if "default" not in sets:
                continue
            base = sets["default"]
            for name, feats in SETS:
                if name in sets and sets[name]["sorted"] != ("order" not in feats):
                    cx.notes.append("%s: serde_json's map order does not follow the feature set" % name)
            for name in sets:
                if name == "default":
                    continue
                other = sets[name]["docs"]
                for k, v in other.items():
                    b = base["docs"].get(k)
                    ty = k.split("|")[0]
                    if b is None or (not ty and n not in derived):
                        continue        # a type of this feature only; definitions of different sets of types
                    ev += 1
                    if v == "panic" or b == "panic":
                        if v != b:
                            bad("panics-in-one:%s" % ty, "%s: generation panics only with one of the feature sets default and %s" % (k, name))
                        continue
                    count("compared-with-default:" + name)
                    nontriv += "{" in b[0][1:]
                    x, y = load(b[0]), load(v[0])
                    if not eq(x, y):
                        bad("value-differs:%s:%s" % (name, ty), "%s: document of feature set %s differs from the default one at %s" % (k, name, first_diff(x, y)), default=x, other=y)
            defs = json.load(open(os.path.join(d0, n + ".json"))) if n in derived else None
            byname = {d["name"]: d for d in defs or []}
            for name, feats in SETS:
                for k, v in sets.get(name, {"docs": {}})["docs"].items():
                    if v == "panic":
                        continue
                    ty, dia, con, what = k.split("|")
                    ev += 1
                    count("keyword-order-checked")
                    r = keyword_order(load(v[0]))
                    if r:
                        bad("keyword-order:%s:%s" % (name, ty), "%s (%s): %s" % (k, name, r), doc=v[0])
                    if not eq(load(v[0]), load(v[1])):
                        bad("text-differs-from-value:%s:%s" % (name, ty), "%s (%s): the serialized document is not the schema's value" % (k, name), doc=v[0], value=v[1])
                    if "order" in feats and defs and what in ("root", "root-inline") and ty in byname and "struct" in byname[ty]["body"] or ("order" in feats and defs and ty in byname and what == "root"):
                        ev += 1
                        for t in (0, 1):
                            p, m = declared(defs, byname[ty], load(v[t]), con, dia == "openapi3")
                            if p:
                                bad("declaration-order:%s:%s" % (name, ty), "%s (%s): %s" % (k, name, p), doc=v[t])
                        if m > 1:
                            nontriv += 1
                            count("declaration-order-checked")
                            if len(samples) < 4:
                                samples.append({"type": ty, "features": feats, "document": v[0][:1500]})
                    if len(samples) < 2:
                        samples.append({"case": k, "features": feats, "document": v[0][:800]})
    cx.results.append(("features", {"evaluations": ev, "distinct": nontriv, "counters": cnt, "samples": samples, "violations": viol, "inconclusive": []}))
