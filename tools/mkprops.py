#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable and diffable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

D="schemars_derive/src/"
S="schemars/src/"
p("C01","Serialize schemas accept everything the type serializes to",
 "For every type deriving both the serialization trait and the schema trait (any combination of documented representation, renaming, skipping, flattening, conversion and generic attributes), the schema generated under the serialize contract accepts the JSON of every value of the type. This holds under every shipped dialect setting (draft-07, 2019-09, 2020-12), inlined or referenced. Values containing NaN or infinite floats are out of scope, since JSON cannot express them, as are types that flatten parts whose keys overlap (at most one flattened part may take arbitrary keys).",
 ["programs","inputs","configurations"],"all derived type definitions, all their values, all dialect settings",
 "Integration tests snapshot ~150 hand-written types and validate a handful of values of each; combinations of attributes (tagging x flatten x skip x rename x contract) and values are sampled sparsely.",
 [D+"schema_exprs.rs",D+"ast/mod.rs",D+"attr/mod.rs",S+"_private/mod.rs"],
 [("expression generation per container/variant/field","schemars_derive/src/schema_exprs.rs"),("runtime helpers (flatten, insert_object_property, tagging)","schemars/src/_private/mod.rs")],
 ["serde_json::to_value(v) validated by an independent validator against the generated root schema"])
p("C02","Deserialize schemas accept everything the type deserializes from",
 "For every type deriving both the deserialization trait and the schema trait, the schema generated under the deserialize contract accepts every JSON document, written in the documented form of the type's representation, that deserializes successfully using the documented attributes: optional and defaulted fields may be absent, unknown fields may be present unless denied, and every representation-specific form of every deserializable variant is accepted. Deserializer leniencies outside the documented representation (structs written as arrays, numeric variant indexes, a null payload for unit variants) are out of scope.",
 ["programs","inputs","configurations"],"all derived type definitions, all accepted documents, all dialect settings",
 "Tests deserialize a few fixed documents per type; omission/addition patterns across nested, flattened and tagged fields are a product space.",
 [D+"schema_exprs.rs",D+"attr/mod.rs",S+"_private/mod.rs"],
 [("required/default logic per contract","schemars_derive/src/schema_exprs.rs"),("enum tagging schemas","schemars_derive/src/schema_exprs.rs")],
 ["serde_json::from_value::<T>(doc).is_ok() implies validator accepts doc"])
p("C03","Schemas reject structurally malformed data",
 "A generated schema (either contract) rejects a document that differs from a valid one by a missing required field, a value of the wrong JSON type, null where the type is not optional, an unknown or missing variant tag, more than one externally tagged key, an unknown field where unknown fields are denied, or a wrong tuple/array length. Integer ranges wider than the JSON type, string formats and leniency inherent to flattened optional parts are out of scope.",
 ["programs","inputs","configurations"],"all derived type definitions, all single-fault structural mutations of their documents",
 "Tests only check a fixed list of arbitrary JSON values against each schema; a schema that silently became permissive in one field or variant normally goes unnoticed except in the exact snapshot types.",
 [D+"schema_exprs.rs",S+"_private/mod.rs",S+"json_schema_impls/core.rs",S+"json_schema_impls/tuple.rs"],
 [("required / additionalProperties / const tag emission","schemars/src/_private/mod.rs"),("deny_unknown_fields and unevaluatedProperties handling","schemars_derive/src/schema_exprs.rs")],
 ["verdict of the validator versus a reference acceptor that is cross-checked against serde's own verdict"])
p("C04","Built-in implementations describe the JSON of library types",
 "For every standard-library or supported third-party type with a provided schema implementation (numbers, strings, sequences, sets, maps with every supported key type, tuples, arrays, options, results, ranges, durations, smart pointers, cells, atomics, network, path, time, decimal, uuid, url and version types and their nestings), the schema accepts the serialized form of every value and accepts every conforming document its deserializer accepts, and rejects documents of the wrong JSON type, missing members or unknown alternatives, out-of-range 8/16-bit or negative unsigned integers, zero for non-zero types, wrong array or tuple lengths, strings that are not one character for characters, and non-integer keys of integer-keyed maps. Values without a JSON form and sets whose distinct elements serialize alike are out of scope.",
 ["inputs","programs"],"all provided implementations, their nestings, all values",
 "Tests check a few literal values per type; boundary values, nested compositions and key types are sampled once.",
 [S+"json_schema_impls/"+f for f in ["primitives.rs","core.rs","maps.rs","sequences.rs","tuple.rs","array.rs","nonzero.rs","std_time.rs","ffi.rs","atomic.rs","wrapper.rs","arrayvec07.rs","bytes1.rs","chrono04.rs","decimal.rs","either1.rs","jiff02.rs","semver1.rs","url2.rs","uuid1.rs","serdejson.rs"]],
 [("forward_impl / simple_impl macros","schemars/src/json_schema_impls/mod.rs"),("map key patterns","schemars/src/json_schema_impls/maps.rs")],
 ["serde_json::to_value / from_value verdicts versus validator verdicts"])
p("C05","Generated schemas conform to their declared dialect",
 "Every root schema produced with the draft-07, 2019-09 or 2020-12 settings declares that dialect, is valid under the dialect's meta-schema, and uses no keyword or keyword form the dialect does not define (tuple-array forms, reference siblings, unevaluated keywords, definitions location). With the OpenAPI 3.0 settings no schema contains the constructs that version lacks and the settings replace: const, prefixItems, unevaluatedProperties, null types, boolean schemas (except under additionalProperties), reference siblings or an examples list. This holds for derived, built-in and recursive types and schemas inferred from values.",
 ["programs","configurations","inputs"],"all types and example values, all dialect settings",
 "Tests snapshot one type per dialect; other keyword placements (under pattern, unevaluated, conditional, definition positions) are never generated in combination with the dialect transforms.",
 [S+"generate.rs",S+"transform.rs",S+"consts.rs"],
 [("SchemaSettings constructors and transform lists","schemars/src/generate.rs"),("dialect transforms","schemars/src/transform.rs")],
 ["root schema JSON as returned by the generator"])
p("C06","Every reference in a generated document resolves",
 "In every root schema, each `$ref` resolves by standard URI-fragment and JSON-pointer decoding to a complete schema inside the same document, whatever characters type names contain and whatever definitions path is configured; no referenced definition is a leftover placeholder and no definition is missing. A reference returned for a subschema resolves in the definitions of that generator (taken, mutably borrowed or shared).",
 ["inputs","programs","configurations","histories"],"all type names, type graphs, definitions paths",
 "Tests use one type name with special characters and the three built-in paths.",
 [S+"generate.rs",S+"encoding.rs",S+"schema.rs"],
 [("definitions_path_stripped / encode_ref_name","schemars/src/generate.rs"),("percent/tilde encoding","schemars/src/encoding.rs")],
 ["root schema JSON; generator definitions accessors"],
 state=[("definitions","name -> schema of every referenced type","SchemaGenerator"),("pending_schema_ids","types whose schema is under construction","SchemaGenerator")])
p("C07","Distinct types are never conflated in any generator history",
 "For every sequence of generator operations (subschema requests, root schemas, taking or editing definitions, cloning, consuming) over any set of types with clashing names, a reference produced for a type leads to the schema of exactly that type, two different types never share a definition name, and requesting the same type again yields the same reference without duplicating its definition.",
 ["histories","programs","configurations"],"all operation sequences over all type sets",
 "Tests exercise a single root schema call per generator with one clash; sequences with taken definitions, clones and mixed contracts are not driven.",
 [S+"generate.rs"],
 [("schema_id_to_name / used_schema_names","schemars/src/generate.rs"),("unique-name suffixing","schemars/src/generate.rs subschema_for")],
 ["schemas and definitions returned by each operation of a recorded history"],
 state=[("schema_id_to_name","identity of a type under a contract -> definition name","SchemaGenerator"),("used_schema_names","names already allocated","SchemaGenerator")])
p("C08","Recursive types yield finite and correct schemas",
 "Schema generation terminates for every directly or mutually recursive, possibly generic, type graph, with or without inlining (types declared always-inlined are not themselves recursive, and no type merges itself into itself by flattening or internal tagging), and the result accepts exactly the same documents as unfolding the type: every recursion point refers to the schema of the type it recurses to, including when the recursive type is the root.",
 ["programs","configurations","inputs"],"all finite recursive type graphs, all settings",
 "Tests have two small recursive types; cycles through inlined, wrapper, generic or root types in mixed shapes are not enumerated.",
 [S+"generate.rs",D+"schema_exprs.rs"],
 [("pending schema ids and `$ref: \"#\"`","schemars/src/generate.rs")],
 ["root schema JSON walked as a graph; validator verdicts on unfolded documents"])
p("C09","Settings change the form of a schema, never its meaning",
 "For the same type and contract, the schemas produced inlined or by reference, with any definitions path, with or without a meta-schema URI, and in draft-07, 2019-09 or 2020-12 (or OpenAPI 3.0 reading `nullable`), accept the same documents.",
 ["configurations","programs","inputs"],"all settings combinations, types and documents",
 "Snapshot tests compare output per setting with a recorded file, not across settings on data.",
 [S+"generate.rs",S+"transform.rs",S+"_private/mod.rs"],
 [("inline_subschemas","schemars/src/generate.rs"),("dialect transforms","schemars/src/transform.rs")],
 ["validator verdicts on the same documents across settings"])
p("C10","Schema generation is deterministic and history-independent",
 "The schema for a type under given settings is a function of the type and settings only: repeated calls on one generator, fresh generators, borrowing versus consuming entry points, cloned generators and different threads give equal documents, and extra types generated earlier change a later document only by definition-name suffixes and extra definitions.",
 ["histories","schedules","programs"],"all call orders, generator reuse patterns and threads",
 "Tests call each entry point once on a new generator.",
 [S+"generate.rs",S+"macros.rs"],
 [("root_schema_for / into_root_schema_for","schemars/src/generate.rs")],
 ["equality of documents from different histories"])
p("C11","Subschema traversal reaches every subschema exactly once",
 "Applying a transform to subschemas visits every direct subschema of every keyword the supported dialects define exactly once and nothing that is not a schema (instance data such as const, enum, default, examples and extension values is never visited or changed); the recursive adaptor visits the whole tree once, parents before children.",
 ["inputs"],"all schema documents, including malformed keyword values",
 "One unit test with a fixed schema; keywords not in it are untested.",
 [S+"transform.rs"],
 [("transform_subschemas / RecursiveTransform","schemars/src/transform.rs")],
 ["visit log of a recording transform"])
p("C12","Built-in transforms establish their postcondition and keep meaning",
 "On every schema document each provided transform establishes its documented postcondition everywhere in the tree, leaves schemas that need no change untouched, is idempotent, and preserves the set of accepted documents (reading OpenAPI `nullable` where that is the target); it never panics on odd keyword values. Schemas whose own keywords contradict each other or are ill-typed need only be survived. Documented options (skipping additional properties, format allow-lists) are honoured.",
 ["inputs","configurations"],"all schema documents and transform options",
 "Unit tests exercise each transform on one or two fixed schemas.",
 [S+"transform.rs"],
 [("RemoveRefSiblings, ReplaceConstValue, ReplacePrefixItems, SetSingleExample, ReplaceBoolSchemas, AddNullable, ReplaceUnevaluatedProperties, RestrictFormats","schemars/src/transform.rs")],
 ["schema before/after each transform; validator verdicts before/after"])
p("C13","Schema values behave as the JSON they represent",
 "A schema value is always either a boolean or an object: construction and deserialization accept exactly those and refuse anything else with an error (leaving borrowed values untouched), conversions to and from JSON are lossless (including one-to-one object keys when printed), equality coincides with JSON equality, object accessors agree with the underlying map, and promoting a boolean to an object keeps its meaning.",
 ["inputs","histories"],"all JSON values and sequences of edits",
 "A few unit examples.",
 [S+"schema.rs",S+"lib.rs",S+"macros.rs"],
 [("Schema newtype and ordered serialization","schemars/src/schema.rs")],
 ["public accessors, serialized text"])
p("C14","Reference names and JSON pointers round-trip",
 "Looking up a pointer in a schema agrees with the JSON-pointer and URI-fragment specifications: for any sequence of keys the properly escaped pointer (with or without leading `#`, percent-encoded or not) finds that location and nothing else, shared and mutable lookup agree, and the reference a generator creates for a type with any name finds that type's definition.",
 ["inputs"],"all key strings, documents, and reference strings",
 "Unit tests list a dozen literal strings.",
 [S+"encoding.rs",S+"schema.rs",S+"generate.rs"],
 [("encode_ref_name, percent_decode, pointer","schemars/src/encoding.rs")],
 ["Schema::pointer/pointer_mut results; generated $ref strings"])
p("C15","Schemas inferred from values describe those values",
 "For every serializable value, the schema inferred from it is valid under the dialect, accepts the value's own JSON, names object members, where it lists them, exactly as in the JSON, carries the value as example at the root, and fails only when the value has no JSON form. The same value gives equal schemas from every entry point. NaN and infinite floats are out of scope.",
 ["inputs"],"all serializable values",
 "Tests infer from two or three fixed structs.",
 [S+"ser.rs",S+"generate.rs",S+"macros.rs"],
 [("serde Serializer producing schemas","schemars/src/ser.rs")],
 ["schema returned for a value versus serde_json::to_value of it"])
p("C16","Validation attributes constrain exactly like the validators",
 "A field carrying length, range, pattern, containment, format, required or inner validation attributes (schemars, validator or garde spelling, with literal or constant arguments, on plain, optional, nested, wrapped and collection fields) gets a schema that accepts a value exactly when the corresponding constraint holds, patterns being valid ECMA-262 expressions; existing constraints are not lost and unrelated fields are unaffected. As documented, the attributes apply to the field's own string, array or number schema; fields that merely refer to another type's schema (other than by `required`), byte or grapheme lengths and exclusive limits are out of scope.",
 ["programs","inputs"],"all attribute combinations and field values",
 "Tests snapshot one struct per library; accept/reject boundaries per field type are not exercised.",
 [D+"attr/validation.rs",S+"_private/mod.rs",S+"_private/regex_syntax.rs"],
 [("insert_validation_property, must_contain, inner, escape","schemars/src/_private/mod.rs")],
 ["validator verdict on field values versus the constraint computed directly"])
p("C17","Documentation and metadata attributes are carried faithfully",
 "Titles, descriptions (from attributes or doc comments, normalized as documented: lines joined, one leading space stripped from each, a leading `#` heading line becoming the title), deprecation, examples, defaults, read/write-only marks, extensions and custom transforms given on a container, variant or field appear with exactly the stated value on the schema of that item, under every representation and setting, without altering which documents are accepted and without leaking to sibling items or to the shared definition of a field's type. A default shown in the schema of a named field equals the serialized default value. Flattened fields have no schema of their own and are out of scope here.",
 ["programs","inputs","configurations"],"all attribute texts, positions and representations",
 "Tests snapshot a few doc-comment layouts and attribute positions.",
 [D+"attr/mod.rs",D+"attr/doc.rs",S+"_private/rustdoc.rs",D+"schema_exprs.rs"],
 [("SchemaMetadata application, get_title_and_description","schemars_derive/src/schema_exprs.rs, schemars/src/_private/rustdoc.rs")],
 ["metadata keywords at the item's schema position"])
p("C18","schemars attributes mirror and override serde attributes",
 "A type annotated with `schemars(...)` spellings of serde attributes has the same schema as the type with the `serde(...)` spellings; where both are given the schemars one alone decides; a negated attribute removes the serde one. Attributes are thus interchangeable at container, variant and field level under both contracts.",
 ["programs","configurations"],"all attribute sets and positions",
 "Two snapshot types.",
 [D+"attr/schemars_to_serde.rs",D+"ast/from_serde.rs"],
 [("process_serde_attrs","schemars_derive/src/attr/schemars_to_serde.rs")],
 ["equality of schemas of twin types"])
p("C19","Each contract lists exactly its own names and required members",
 "Under each contract, the schema of a struct, variant or enum lists exactly the members and variants that take part in that direction under that direction's name (rename, rename-all, per-direction skips, untagged variants), and marks as required exactly those members that serialization always writes, respectively that deserialization refuses to do without. Conversions (from, try_from, into) describe the converted type in their own direction only.",
 ["programs","configurations"],"all attribute combinations, both contracts",
 "Snapshots of a few types in both contracts.",
 [D+"schema_exprs.rs",D+"name.rs",D+"attr/mod.rs",S+"generate.rs"],
 [("contract-dependent names and required","schemars_derive/src/schema_exprs.rs, name.rs"),("Contract in settings and in type identity","schemars/src/generate.rs")],
 ["properties/required/variant lists in generated schema versus the declared model"])
p("C20","Wrappers, transparent types and `with` behave as the wrapped type",
 "Smart pointers, references, cells, locks and other documented pass-through types, newtypes marked transparent (without metadata of their own), and fields redirected with `with`/`schema_with`/remote definitions produce exactly the schema of the type they stand for (weak pointers, which serialize as optional: that of the optional type), at root, as a field, inlined or referenced, without introducing additional definitions.",
 ["programs","configurations"],"all wrapper nestings and positions",
 "Tests snapshot single wrappers around one type.",
 [S+"json_schema_impls/wrapper.rs",S+"json_schema_impls/mod.rs",S+"macros.rs",D+"schema_exprs.rs"],
 [("forward_impl","schemars/src/json_schema_impls/mod.rs"),("transparent / with handling","schemars_derive/src/schema_exprs.rs")],
 ["equality of generated schemas"])
p("C21","Generic instantiations have distinct identities and names",
 "Different instantiations of generic types (type or const parameters, any nesting, same-named types of different modules) have different schema identities and never share a definition, equal instantiations share one, and the schema name of an instantiation is its documented pattern with the arguments' names substituted.",
 ["programs"],"all generic types and instantiations",
 "One test with a few instantiations.",
 [D+"lib.rs",D+"schema_exprs.rs",S+"json_schema_impls/core.rs",S+"json_schema_impls/maps.rs",S+"json_schema_impls/arrayvec07.rs"],
 [("schema_id / schema_name generation","schemars_derive/src/lib.rs and json_schema_impls")],
 ["schema_id()/schema_name() values, definitions of documents holding several instantiations"])
p("C22","Configured transforms apply once, in order, to every root schema",
 "Every root schema a generator returns has had each configured transform applied exactly once, in configured order, after its definitions were attached, whichever entry point produced it; subschemas and definitions handed out separately are not transformed behind the caller's back, and definitions taken with the transform option are each transformed once. Cloned or inspected settings keep each transform's type and state.",
 ["configurations","histories"],"all transform lists and entry points",
 "One test per entry point with default settings.",
 [S+"generate.rs"],
 [("apply_transforms, GenTransform","schemars/src/generate.rs")],
 ["log of a recording transform"])
p("C23","Optional features change key order only",
 "Enabling or disabling the order-preserving feature never changes a generated schema as a JSON value; with it enabled, properties, definitions' members and variants appear in declaration order (flattened members in place of encounter), and serialized documents place well-known keywords in the documented order.",
 ["configurations","programs"],"all feature sets and types",
 "The suite runs with all features on; nothing compares feature sets.",
 [S+"schema.rs","schemars/Cargo.toml",S+"_private/mod.rs"],
 [("preserve_order map type; ordered keyword serialization","schemars/src/schema.rs")],
 ["serialized text and value of the same type in differently featured builds"])
p("C24","Repr-enum derivation matches the integer representation",
 "For every fieldless enum derived with the repr form, the schema accepts exactly the integers that the companion serde implementation reads and writes, for every primitive representation, explicit or implicit discriminant. A catch-all variant (serde's `other`) is out of scope.",
 ["programs","inputs"],"all fieldless enums and integers",
 "One snapshot enum.",
 [D+"lib.rs",D+"schema_exprs.rs"],
 [("expr_for_repr","schemars_derive/src/schema_exprs.rs")],
 ["validator verdict versus serde_repr verdict on integers"])
p("C25","Attribute misuse is a compile error, valid use compiles",
 "The derive rejects unknown, duplicate, malformed or mutually exclusive schemars attributes with a compile error at the item, never silently ignoring them, and accepts every documented attribute in every documented position and spelling, including on generic types where the generated bounds suffice.",
 ["programs"],"all attribute programs",
 "The compile-fail suite has about a dozen files and is not part of the stable tests.",
 [D+"attr/mod.rs",D+"attr/parse_meta.rs",D+"attr/validation.rs",D+"attr/custom_meta.rs",D+"bound.rs"],
 [("attribute parsing and error collection","schemars_derive/src/attr/*.rs")],
 ["compiler diagnostics per program"])
p("C26","Flattening equals writing the members in place",
 "A struct or struct variant with flattened fields (structs, maps, options, all enum representations, nested flattening) has a schema that accepts exactly the documents accepted by the same type with the members of the flattened field written in place; no member, requirement, key restriction or alternative of either side is lost in the merge, independent of field order and of whether the flattened type is referenced or inlined. Flattened parts whose keys overlap (in particular several that take arbitrary keys) are out of scope.",
 ["programs","inputs","configurations"],"all flatten compositions",
 "Snapshots of about ten compositions.",
 [S+"_private/mod.rs",D+"schema_exprs.rs"],
 [("flatten merge","schemars/src/_private/mod.rs")],
 ["validator verdicts and schemas of flattened type versus in-place twin"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
