"""Monitor of C25: what the compiler reports for generated programs, and where."""
import random

import usegen


def source(rng, items, **kw):
    lines = usegen.PRELUDE.rstrip("\n").split("\n")
    for it in items:
        usegen.render(it, rng, lines, **kw)
    lines.append("fn main() {}")
    return lines


def within(diag, rng):
    return any(rng[0] <= a and b <= rng[1] for a, b in diag["lines"])


def attribute(diags, items):
    """Diagnostics by item name; those outside any item under None."""
    out = {}
    for d in diags:
        if d["message"].startswith("aborting due to") or not d["message"]:
            continue
        hit = [it for it in items if within(d, it.lines)]
        out.setdefault(hit[0].name if hit else None, []).append(d)
    return out


def text(it, lines):
    return "\n".join(lines[it.lines[0] - 1:it.lines[1]])


def run(cx):
    q = cx.quick
    rng = random.Random(cx.seed * 7919 + 25)
    nv, nm, ns, files_each = (1200, 2800, 2000, 8) if q else (9600, 22400, 16000, 64)
    files, meta = {}, {}

    def add(name, items, **kw):
        lines = source(rng, items, **kw)
        files[name] = "\n".join(lines) + "\n"
        meta[name] = (items, lines)

    for i in range(files_each):
        add("valid%d" % i, [usegen.decorate(rng, usegen.base(rng, "T%d" % k), rng.choice([0.3, 0.8, 1.0])) for k in range(nv // files_each)])
    wrong = {}
    for i in range(files_each):
        ms = [usegen.misused(rng, "M%d" % k) for k in range(nm // files_each)]
        add("misuse%d" % i, [m[0] for m in ms])
        wrong["misuse%d" % i] = ms
    for kind, specs in (("types", usegen.TYPE_ERRORS), ("names", usegen.RESOLVE_ERRORS)):
        for rep in range(1 if q else 4):
            ls = [(usegen.late(rng, "L%d" % k, sp), sp) for k, sp in enumerate(specs * (2 if q else 4))]
            n = "%s%d" % (kind, rep)
            add(n, [l[0][0] for l in ls])
            wrong[n] = [(l[0], l[1], "late-" + kind, sp[0], sp[1]) for l, sp in ls]
    pairs = [usegen.serde_pair(rng, "P%d" % k) for k in range(ns)]
    seed = rng.random()
    for sp, dv in (("serde", ["serde::Deserialize"]), ("schemars", ["JsonSchema"])):
        keep, rng = rng, random.Random(seed)
        add("pair_" + sp, pairs, spelling=sp, derives=dv)
        meta["pair_" + sp] = ([(it.name, it.lines) for it in pairs], meta["pair_" + sp][1])
        rng = keep
    got = cx.check_crate(files)

    ev, viol, samples, cnt = 0, [], [], {}

    def count(k, n=1):
        cnt[k] = cnt.get(k, 0) + n

    def bad(sig, what, **detail):
        viol.append({"sig": sig, "what": what, "detail": detail})

    for n in sorted(files):
        items, lines = meta[n]
        if n.startswith("pair"):
            continue
        by = attribute(got[n], items)
        stray = by.pop(None, [])
        if n.startswith("valid"):
            for it in items:
                ev += 1
                na = sum(len(s.attrs) + len(s.docs) for s in it.slots())
                count("valid-items")
                count("valid-attribute-items", na)
                for s in it.slots():
                    for k, _, sp in s.attrs:
                        count("valid:%s:%s" % (s.pos, k))
                if it.generics:
                    count("valid-generic-items")
                if it.name in by:
                    bad("valid-use-rejected:%s" % by[it.name][0]["message"][:60], "documented use of attributes does not compile: " + by[it.name][0]["message"], item=text(it, lines), errors=by[it.name][:4])
            if len(samples) < 3:
                samples.append({"kind": "valid", "source": text(items[0], lines)})
        else:
            for m in wrong[n]:
                it, slot, cls, kw, what = m
                ev += 1
                count("misuse:" + cls)
                count("misuse-of:%s:%s" % (slot.pos, kw))
                ds = by.pop(it.name, [])
                if len(samples) < 12 and not any(s.get("class") == cls for s in samples):
                    samples.append({"kind": "misuse", "class": cls, "source": text(it, lines), "reported": [d["message"] for d in ds][:2]})
                if not ds:
                    bad("misuse-accepted:%s:%s:%s" % (cls, slot.pos, kw), "%s use of `%s` on a %s compiles without an error: %s" % (cls, kw, slot.pos, what), item=text(it, lines))
                elif not cls.startswith("late") and not any(within(d, slot.lines) for d in ds):
                    # serde's own checks report some errors at the whole item or at the node before
                    count("reported-elsewhere-in-item")
                else:
                    count("reported-at-place")
            for name, ds in by.items():
                bad("unexpected", "error in an item without misuse: " + ds[0]["message"], errors=ds[:3])
        for d in stray:
            bad("error-outside-items", "error reported outside any generated item: " + d["message"], file=n, error=d)
    def refused(n):
        out = {}
        for d in got[n]:
            for name, ls in meta[n][0]:
                if within(d, ls):
                    out.setdefault(name, []).append(d)
        return out
    sr, jr = refused("pair_serde"), refused("pair_schemars")
    for (name, ls), (_, js) in zip(meta["pair_serde"][0], meta["pair_schemars"][0]):
        ev += 1
        a = [d for d in sr.get(name, []) if d["code"] is None]
        b = [d for d in jr.get(name, []) if d["code"] is None]
        count("serde-pairs")
        count("serde-pairs-refused" if a else "serde-pairs-accepted")
        if bool(a) != bool(b):
            src = "\n".join(meta["pair_schemars"][1][js[0] - 1:js[1]])
            bad("differs-from-serde:%s" % (a or b)[0]["message"][:60], "serde's derive and schemars disagree (%s refuses): %s" % ("serde" if a else "schemars", (a or b)[0]["message"]), item=src, errors=(a or b)[:3])
    cx.results.append(("compiler", {"evaluations": ev, "distinct": ev - cnt.get("valid-items", 0) + len([1 for n in files if n.startswith("valid") for it in meta[n][0] if any(s.attrs for s in it.slots())]),
                                    "counters": cnt, "samples": samples, "violations": viol, "inconclusive": []}))
