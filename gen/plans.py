"""What each check builds and runs."""
import glob
import json
import os
import shutil
import subprocess

import corpus
import featcheck
import flatgen
import idgen
import libs
import metagen
import reprgen
import twins
import usecheck
import valgen

PLANS = {}


NOT_CLAIMED = {}


def plan(prop, rule, technique="", note="", min=100, assumptions=()):
    def deco(f):
        PLANS[prop] = {"run": f, "rule": rule, "min": min, "assumptions": list(assumptions),
                       "technique": "runtime monitoring: " + technique, "note": NOTE + note}
        return f
    return deco


NOTE = "Held on the executions observed (see the evidence file), nothing more. "
REF = "Trusts serde's derives and the jsonschema crate as independent judges. "


def derive_corpus(cx, opts=None, bins=8, per=(64, 72), rounds=(1, 5), timeout=(300, 900)):
    q = 0 if cx.quick else 1
    for rnd in range(rounds[q]):
        seed = cx.seed * 131 + rnd * 7
        built = cx.gen_crate(lambda d: corpus.write(d, bins, seed, per[q], opts, prefix="g%d_" % rnd), tag="r%d" % rnd)
        cx.run([(n, [p], {}) for n, p in sorted(built.items())], timeout[q])


def zoo(cx, which):
    """Hand-written types, one process each: an overflow in one is a crash of that one."""
    cx.build_harness(["zoo"])
    p = os.path.join(cx.dir, "zoo-bin")
    shutil.copy2(os.path.join(cx.target, "debug", "zoo"), p)
    types = subprocess.run([p, which], stdout=subprocess.PIPE, check=True).stdout.decode().split()
    cx.run([("zoo-" + t, [p, t], {}) for t in types], 300)
    cx.extra["hand-written-types"] = len(types)


def core(cx, shards=8, timeout=(300, 1500), features=None, tag=""):
    """Runs the core binary's monitor in parallel shards (different random streams)."""
    p = cx.core_bin(features)
    cx.run([("core%s%d" % (tag, i), [p], {"VH_SHARD": "%s%d" % (tag, i)}) for i in range(shards)], timeout[0 if cx.quick else 1])


CORPUS_RULE = "random Rust programs (types with serde+schemars derives) compiled and run; "


@plan("C01", CORPUS_RULE + "each case is one distinct serialized value validated against the serialize-contract schema under one setting; non-trivial: array or object",
      technique="validator oracle over serialized values of randomly generated, compiled programs",
      note=REF)
def c01(cx):
    zoo(cx, "list-shapes")
    derive_corpus(cx)


@plan("C02", CORPUS_RULE + "each case is one document that serde deserializes, validated against the deserialize-contract schema under one setting; non-trivial: mutated or object document",
      technique="validator oracle over documents that serde deserializes, in randomly generated, compiled programs",
      note=REF)
def c02(cx):
    zoo(cx, "list-shapes")
    derive_corpus(cx)


@plan("C03", CORPUS_RULE + "each case is one structurally malformed document (reference model says no, and for deserialize serde agrees) that the schema must reject",
      technique="reference-model + serde oracle over mutated documents of randomly generated, compiled programs",
      note=REF)
def c03(cx):
    zoo(cx, "list-shapes")
    derive_corpus(cx)


@plan("C05", CORPUS_RULE + "each case is one root schema under one setting checked against meta-schema and dialect keyword rules; non-trivial: more than 3 keywords",
      technique="meta-schema and dialect-rule monitor over every document generated for random programs",
      note='Dialect rules were written from the specifications; trusts the jsonschema crate for the meta-schemas.')
def c05(cx):
    zoo(cx, "list-shapes")
    derive_corpus(cx)


@plan("C06", CORPUS_RULE + "each case is one root document or generator state whose references are all resolved independently; non-trivial: has references",
      technique="independent reference resolver over every generated document and generator state",
      note='The resolver was written from RFC 6901 and RFC 3986.')
def c06(cx):
    core(cx)
    derive_corpus(cx)


@plan("C08", CORPUS_RULE + "recursive types only; each case is one document judged by model/serde and by the schema; non-trivial: nesting depth > 2",
      technique="reference-model oracle over deep documents of random and hand-written recursive types, crash watch on generation",
      note=REF)
def c08(cx):
    zoo(cx, "list")
    derive_corpus(cx, opts={"recursion": 3.0, "flatten": 0.5}, per=(28, 60))


@plan("C09", CORPUS_RULE + "each case compares one document's verdict under one setting with the draft 2020-12 verdict; non-trivial: setting differs",
      technique="differential validation of one type under all settings",
      note=REF)
def c09(cx):
    core(cx)
    derive_corpus(cx)


@plan("C10", CORPUS_RULE + "each case compares the document from one generator history with the fresh one; non-trivial: more than three keywords or a history of several operations",
      technique="differential monitor over entry points, threads and random generator histories (bisimulation of documents)",
      note='Compares byte-identical output for equal histories and bisimilar documents otherwise.')
def c10(cx):
    core(cx)
    derive_corpus(cx, opts={"nohash": True})


@plan("C19", CORPUS_RULE + "each case compares names, variants and required lists of one schema with the declared model; non-trivial: at least one member",
      technique="shape monitor comparing generated members with a declared model of each random type",
      note='The model is derived from the generator\'s own description of the program.')
def c19(cx):
    derive_corpus(cx)


@plan("C07", "random worlds of 12 types with clashing names driven through random generator histories; each case is one history, the shadow state is compared after every operation; non-trivial: more than three operations",
      technique="shadow-state monitor over random histories of generator operations on type worlds with embedded identities",
      note="Types are hand-written JsonSchema implementations with embedded identities; histories are 3 to 14 operations on up to 3 generators.")
def c07(cx):
    core(cx)


@plan("C22", "random transform configurations and generator histories; each case is one history whose documents carry an embedded log of the transforms that touched them; non-trivial: at least one transform configured",
      technique="event-log monitor: recording transforms write their application log into the documents, which is checked for order and exactly-once",
      note="Recording transforms are the events; histories are 1 to 6 operations.")
def c22(cx):
    core(cx)


@plan("C11", "random documents with every subschema keyword of every dialect, ill-typed keyword values and schema-like instance data; each case is one document on which visit logs are compared with the specification walker; non-trivial: more than one direct subschema",
      technique="visit-log monitor: recording transforms over numbered random documents, compared with an independent walker",
      note="The list of subschema positions was written from the JSON Schema specifications.")
def c11(cx):
    core(cx)


@plan("C12", "random schema documents times every provided transform and option set; each case is one application judged by postcondition, documented result, idempotence and validator verdicts before/after; meaning cases are non-trivial when the document changed",
      technique="postcondition, model and differential-validation monitors over random documents and all transforms",
      note="Documented results were modelled from the rustdoc of each transform; verdicts trust the jsonschema crate. `nullable` is read as in OpenAPI 3.0.3; for unevaluatedProperties only the documented approximation is required.")
def c12(cx):
    core(cx)


@plan("C13", "random JSON values and edit histories; each case is one value: construction, deserialization, printing (text re-read by a parser that keeps duplicate keys and order), equality, accessors and edit histories against a shadow value; non-trivial: object with at least two members",
      technique="shadow-value monitor over random values and edit histories of the schema type, re-reading the printed text",
      note="Key order of printed text is checked only as documented (well-known keywords; feature preserve_order).")
def c13(cx):
    core(cx)


@plan("C14", "random documents with hostile keys times all escape spellings of every location, mutated pointers, and references generated for types with arbitrary names; each case is one document or name set; non-trivial: more than one location",
      technique="address-identity monitor: looked-up location compared with an independent RFC 6901/3986 resolver",
      note="Pointers whose percent-encoding is invalid or does not decode to UTF-8 are checked only for absence of panics and agreement of both lookups.")
def c14(cx):
    core(cx)


@plan("C15", "random values of serde's whole data model (all serializer methods, clashing/odd names, failing keys); each case is one value under one setting; non-trivial: JSON array or object",
      technique="validator and entry-point-agreement monitor over inferred schemas of random values of serde's data model",
      note="Trusts serde_json as the meaning of a value's JSON and the jsonschema crate as validator.")
def c15(cx):
    core(cx)


@plan("C04", "every library type with a provided implementation and random nestings of them (compiled programs); each case is one type and document judged by serde, the type's JSON model and the schema; non-trivial: non-null values, and documents with a definite verdict",
      technique="validator oracle over values and mutated documents of randomly nested library types, with serde and a JSON model as judges and format-asserting validation of serialized values",
      note="Sets whose distinct elements serialize alike (e.g. of nested options) are not generated. Formats are asserted for years 0-9999 and non-negative durations.")
def c04(cx):
    core(cx)
    q = 0 if cx.quick else 1
    for rnd in range((1, 6)[q]):
        seed = cx.seed * 131 + rnd * 7
        built = cx.gen_crate(lambda d: libs.write(d, 8, seed, (22, 50)[q], prefix="l%d_" % rnd), tag="r%d" % rnd)
        cx.run([(n, [p], {}) for n, p in sorted(built.items())], (300, 900)[q])


def twin_programs(cx, cls, bins=8, per=(35, 60), rounds=(1, 5)):
    q = 0 if cx.quick else 1
    for rnd in range(rounds[q]):
        seed = cx.seed * 131 + rnd * 7
        built = cx.gen_crate(lambda d: twins.write(d, bins, seed, per[q], cls, prefix="w%d_" % rnd), tag="r%d" % rnd)
        cx.run([(n, [p], {}) for n, p in sorted(built.items())], (300, 900)[q])


@plan("C18", "random Rust programs compiled with the same types in two spellings (serde attributes; random mixture of serde and schemars attributes with overridden and negated decoys); each case compares the two documents of one type under one setting and contract; non-trivial: more than 150 characters",
      technique="differential monitor over compiled twin programs (serde spelling versus schemars spelling)",
      note="Exact equality of documents. `bound` and serialize_with/with are covered as decoys only.")
def c18(cx):
    twin_programs(cx, twins.Schemars)


@plan("C20", "random Rust programs compiled with the same types bare and wrapped/redirected at random positions; each case compares the two documents of one type under one setting and contract; non-trivial: more than 150 characters",
      technique="differential monitor over compiled twin programs (bare types versus wrapped, transparent and redirected ones)",
      note="Exact equality of documents, definitions included.")
def c20(cx):
    core(cx, shards=1)
    twin_programs(cx, twins.Wrapped)


@plan("C26", "random Rust programs compiled and run: (1) hosts flattening random trees of structs, maps and enums versus the same members written in place in another order, one case per document pair; (2) hosts of flattened maps with restricted keys probed with right and wrong values at those keys; (3) flattening types of the random corpus judged on mutated documents by the reference model and serde; non-trivial: more than 150 characters, respectively object documents of several members",
      technique="differential monitor over compiled twin programs (flattened versus in place), key probes, and reference-model oracle over mutated documents",
      note=REF + "At most one flattened part that takes arbitrary keys per host.")
def c26(cx):
    q = 0 if cx.quick else 1
    for rnd in range((1, 4)[q]):
        seed = cx.seed * 131 + rnd * 7
        built = cx.gen_crate(lambda d: flatgen.write(d, 8, seed, (30, 80)[q], (10, 30)[q], prefix="f%d_" % rnd), tag="f%d" % rnd)
        cx.run([(n, [p], {}) for n, p in sorted(built.items())], (300, 900)[q])
    derive_corpus(cx, opts={"flatten": 2.5, "recursion": 0.3}, per=(25, 60))


@plan("C24", "random Rust programs with fieldless enums of every integer representation; each case is one JSON value judged by serde_repr and by the schema under one setting, bare or in a field of another type; non-trivial: a number",
      technique="validator oracle with serde_repr as the judge over compiled random enums and boundary integers",
      note="Variants marked #[serde(other)] are not generated; 128-bit discriminants stay within serde_json's integers. ")
def c24(cx):
    q = 0 if cx.quick else 1
    for rnd in range((1, 6)[q]):
        seed = cx.seed * 131 + rnd * 7
        built = cx.gen_crate(lambda d: reprgen.write(d, 4, seed, (36, 96)[q], prefix="r%d_" % rnd), tag="r%d" % rnd)
        cx.run([(n, [p], {}) for n, p in sorted(built.items())], (300, 900)[q])


@plan("C21", "random Rust programs with same-named generic templates in several modules (type, const, phantom, skipped, schema_with-only, associated-type parameters; rename patterns) and near-miss instantiations; cases are type pairs (non-trivial: equally named), names, and generator histories over several instantiations (non-trivial: at least two different ones)",
      technique="identity monitor: ids, names and definitions of compiled generic instantiations compared with normal forms computed by the program generator",
      note="Normal forms are computed by the generator of the programs. Types made to share module path and name by a rename are known findings.")
def c21(cx):
    q = 0 if cx.quick else 1
    for rnd in range((1, 5)[q]):
        seed = cx.seed * 131 + rnd * 7
        built = cx.gen_crate(lambda d: idgen.write(d, 16, seed, (110, 200)[q], prefix="i%d_" % rnd), tag="r%d" % rnd)
        cx.run([(n, [p], {}) for n, p in sorted(built.items())], (300, 900)[q])


NODE = """
const cases = JSON.parse(require('fs').readFileSync(0, 'utf8')), bad = []; let n = 0;
for (const c of cases) {
  let re;
  try { re = new RegExp(c.pattern, 'u'); } catch (e) { bad.push([c, 'not an ECMA-262 regular expression: ' + e.message]); n++; continue; }
  for (const [s, want] of c.samples) { n++; if (re.test(s) !== want) { bad.push([c, 'wrong verdict for ' + JSON.stringify(s) + ', which ' + (want ? 'contains it' : 'does not')]); break; } }
}
console.log(JSON.stringify({n, bad}));
"""


@plan("C16", "random Rust programs whose fields carry validation attributes in schemars, validator and garde spelling; each case is one document judged by the constraints themselves and by the schema under one setting (non-trivial: all of them); the patterns of containment attributes are judged again by an ECMA-262 engine in unicode mode",
      technique="constraint oracle over boundary documents of compiled random programs; second regex engine (node) for containment patterns; un-annotated twin types for leaks",
      note="Constraints are evaluated directly on the documents. Constraints on members given by reference only (documented to apply to string, array and number schemas), byte and grapheme length modes and exclusive limits of the libraries are not covered. ")
def c16(cx):
    q = 0 if cx.quick else 1
    for rnd in range((1, 5)[q]):
        seed = cx.seed * 131 + rnd * 7
        built = cx.gen_crate(lambda d: valgen.write(d, 8, seed, (90, 200)[q], prefix="v%d_" % rnd), tag="r%d" % rnd)
        cx.run([(n, [p], {}) for n, p in sorted(built.items())], (300, 900)[q])
    cases = []
    for p in sorted(glob.glob(os.path.join(cx.dir, "out-*.json.patterns"))):
        cases += json.load(open(p))
    p = subprocess.run(["node", "-e", NODE], input=json.dumps(cases).encode(), stdout=subprocess.PIPE, timeout=300, check=True)
    out = json.loads(p.stdout)
    cx.extra["patterns-judged-by-ecma262-engine"] = len(cases)
    cx.extra["ecma262-verdicts"] = out["n"]
    for c, why in out["bad"]:
        cx.violations.append({"sig": "pattern:%s" % c["contains"], "what": "pattern %r of `contains` %r: %s" % (c["pattern"], c["contains"], why), "detail": c})


@plan("C17", "random Rust programs with the same types without and with documentation, title/description/deprecated/example/extend/transform attributes at containers, variants and fields, and types with serde defaults; each case is one document pair under one setting and contract (non-trivial: metadata present) or one member with or without a default (non-trivial: shown)",
      technique="differential monitor: the annotated document must be the plain one with the stated operations done at the stated items; defaults compared with serde's own",
      note="Exact equality of documents (the order of alternatives aside); the dialects' own transforms, judged by C05 and C09, are run over the expected document too. Metadata on flattened fields has no schema of its own, and flattened types' container metadata is not covered.")
def c17(cx):
    q = 0 if cx.quick else 1
    for rnd in range((1, 5)[q]):
        seed = cx.seed * 131 + rnd * 7
        built = cx.gen_crate(lambda d: metagen.write(d, 8, seed, (60, 140)[q], prefix="m%d_" % rnd), tag="r%d" % rnd)
        cx.run([(n, [p], {}) for n, p in sorted(built.items())], (300, 900)[q])


@plan("C25", "random Rust items: valid uses of the documented attributes (generic ones with instantiations that have to work), the same kind of items with one unknown, duplicate, malformed, exclusive or misplaced attribute item, items whose attribute values have the wrong type or name nothing, and items with random serde attributes; each case is one item judged by the compiler's diagnostics (non-trivial: the item carries attributes)",
      technique="the derive is executed by the compiler on generated programs; a monitor attributes every diagnostic to the item and line it is reported at; serde's derive is the reference for the shared attributes",
      note="Only that an error is reported, and where, is judged, not its wording. ")
def c25(cx):
    usecheck.run(cx)


@plan("C23", "the same random Rust programs and library types built with five feature sets of schemars (default, preserve_order, without std, without std but preserve_order, raw_value); each case is one document compared with the default build's, or one document's keyword or member order (non-trivial: documents with nested objects; orders of at least two members that are not alphabetical)",
      technique="differential monitor over documents recorded from differently featured builds; order checker over the serialized text, with the generator's own descriptors as the declaration order",
      note="Only the order of variants within unit variants and within the others is judged; the tag's place among a variant's members is not. ")
def c23(cx):
    featcheck.run(cx)
