#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Value validation agrees exactly with the declared facets of the type",
  "For every type that parses, unwraps and validates, and every JSON value, BaseShape.Validate accepts the value if and only if it satisfies the type's kind and every enforced facet at every nesting level: string/file length (strings counted in characters), pattern, enum, numeric range, integer-ness, date/time layouts, item count/uniqueness/item type, required/optional/pattern/additional properties, property count, union alternatives, nil. multipleOf, number formats, fileTypes, discriminator dispatch and embedded JSON Schema bodies are documented as not enforced and never cause a rejection.",
  ["inputs", "programs"], "all type declarations built from the built-in kinds and their facets, nested arbitrarily, and all JSON values (numbers as float64 or int), including boundary values of each facet",
  "Unit tests try a handful of literals per facet on hand-built shapes; they do not cover combinations of facets, nesting, boundary neighbours, or agreement between the declaration text and the verdict.",
  ["scalars.go", "complex.go", "shape.go", "parse.go"],
  [("per-kind validate methods", "scalars.go, complex.go: (*XShape).validate"), ("facet decoding", "scalars.go, complex.go: unmarshalYAMLNodes"), ("kind inference", "shape.go: identifyShapeType")],
  ["BaseShape.Validate on types parsed from RAML text"])
p("C02", "A derived type carries all of its ancestors' constraints",
  "After unwrapping, a type derived by single or multiple inheritance, alias, include or type expression has exactly the facets, properties, items, union alternatives and custom facet values obtained by taking its own declarations and adding whatever it does not declare from its parents, across any number of levels and fragments. Consequently every value a derived type accepts is accepted by each of its parents (patterns redeclared by the child, and properties the child adds to a parent that restricts additional properties, excepted).",
  ["programs", "inputs"], "all inheritance graphs over libraries/DataType fragments and all values",
  "Tests check single-step inheritance on fixed pairs; chains, diamonds, nested property overrides and cross-fragment derivation combine combinatorially.",
  ["unwrap.go", "shape.go", "complex.go", "scalars.go", "rdt_visitor.go"],
  [("Inherit/inherit methods", "shape.go: BaseShape.Inherit; *.inherit"), ("parents unwrapping", "unwrap.go: unwrapParents"), ("aliasing", "shape.go: AliasTo")],
  ["public facet fields of unwrapped shapes", "BaseShape.Validate of child vs parents"])
p("C03", "Overrides that widen a parent are rejected; narrowing ones are accepted",
  "A child declaration that relaxes an inherited constraint (lower minimum/minLength/minItems/minProperties, higher maximum/maxLength/maxItems/maxProperties, uniqueItems turned off, enum or fileTypes not a subset, conflicting format, required property made optional, incompatible kind) makes unwrapping and validation fail, while a child that keeps or narrows each constraint is accepted. This holds for every facet, at top level and inside properties, pattern properties and items, through any number of intermediate levels; a type whose own or effective minimum exceeds its maximum, whose enum members have the wrong kind, or whose discriminator is not a scalar property of it is rejected too.",
  ["programs"], "all parent/child pairs of facet settings, at every nesting depth and chain length",
  "Tests cover one violating pair per facet with hand-built shapes; not equality boundaries, deep chains, nested positions or the accept side for arbitrary settings.",
  ["scalars.go", "complex.go", "shape.go", "validate.go"],
  [("constraint checks in inherit", "scalars.go/complex.go: inherit"), ("check methods", "scalars.go/complex.go: check")],
  ["error result of ParseFromString with OptWithUnwrap/OptWithValidate"])
p("C04", "Types never influence one another through derivation or use",
  "The meaning of a declared type (its effective facets, and the values it accepts) depends only on its own declaration and the declarations it refers to: adding, removing or unwrapping other types that derive from it, alias it, use it as property/item/union member, or combine it by multiple inheritance never changes it. Siblings derived from a common parent never see each other's overrides or descriptions.",
  ["programs", "histories"], "all libraries, and all sets of additional types referring to existing ones, in all declaration orders",
  "Tests assert on the type under test and never re-inspect the parents, siblings or unrelated types after derivation.",
  ["unwrap.go", "shape.go", "complex.go"],
  [("in-place inheritance over shared shape graphs", "shape.go: Inherit, AliasTo; complex.go: inheritProperties"), ("unwrap cache/visited flags", "unwrap.go: UnwrapShape; shape.go: ShapeVisited")],
  ["canonical dump and verdicts of each type with and without the other types"],
  [{"name": "ShapeVisited", "meaning": "traversal mark that must be clear between operations", "where": "shape.go"}, {"name": "Properties maps", "meaning": "may be shared between parent and child shapes", "where": "complex.go"}])
p("C05", "Processing is deterministic and independent of declaration order and layout",
  "Parsing, unwrapping, validating and converting the same RAML sources always yields the same accept/reject verdict, the same types, the same value verdicts and byte-identical JSON Schema, in every process and on every repetition. Reordering declarations inside a library or facets inside a declaration, renaming library aliases or files consistently, reformatting (comments, quoting, flow style, CRLF), or loading the entry point from a path instead of a string, changes none of them apart from the order of ordered maps and positions.",
  ["inputs", "histories", "schedules"], "all projects, all repetitions (hash-map iteration orders), all permutations of declarations and layouts",
  "Tests run each fixture once in one layout; Go map iteration order and declaration order effects show up only over many repetitions and permutations.",
  ["unwrap.go", "validate.go", "parse.go", "fragment.go", "resolve.go", "jsonschemaconv.go"],
  [("fragment cache iteration", "unwrap.go: unwrapFragments, markShapeRecursions; validate.go: validateFragments"), ("deferred resolution queue", "resolve.go: resolveShapes")],
  ["dumps, errors, JSON Schema bytes across repetitions and permutations"])
p("C06", "Recursive definitions are handled finitely and with the right meaning",
  "Any declaration that refers to itself or to a cycle of types (through properties, pattern properties, items, unions, optional syntax, custom facets, includes or libraries using each other) either is reported as an error or is accepted; it never crashes, hangs or exhausts the stack in parsing, unwrapping, validation or conversion. When accepted, each finite value gets the verdict of the infinite unfolding of the declaration, at any depth of the value; in an unwrapped model every cycle (also inside annotation types and facet declarations) is cut by a recursion mark.",
  ["programs", "inputs"], "all cyclic type graphs and all finite values",
  "Tests contain a few fixed self-referencing shapes and mostly assert that a recursive marker exists, not what nested values are accepted, nor mutual cycles across constructs.",
  ["unwrap.go", "resolve.go", "rdt_visitor.go", "complex.go", "jsonschemaconv.go", "parse.go"],
  [("recursion marking", "unwrap.go: FindAndMarkRecursion; complex.go: RecursiveShape"), ("self recursion error", "rdt_visitor.go: VisitReference")],
  ["process survival (worker subprocess), error result, BaseShape.Validate at increasing depths"])
p("C07", "JSON Schema conversion preserves meaning",
  "For every unwrapped type, Convert yields a draft-07 document whose every $ref resolves inside the document and which, under JSON Schema semantics, accepts exactly the values the RAML type accepts (for constructs both can express: string-format kinds compare as annotations, pattern properties are assumed not to overlap). Titles, descriptions, defaults, examples, multipleOf, content encoding/media type, x-annotations and property order are carried over from the type; conversion never modifies the type and repeated conversion by the same or a fresh converter gives the same document.",
  ["programs", "inputs", "histories"], "all unwrapped types including recursive ones, all values, all sequences of conversions",
  "Tests compare a few converted documents field by field; none evaluates the schema against values, checks references for recursive or same-named types, or converts repeatedly.",
  ["jsonschemaconv.go", "schema.go"],
  [("visitor conversion", "jsonschemaconv.go: VisitXShape"), ("definitions of recursive types", "jsonschemaconv.go: VisitRecursiveShape")],
  ["Convert output evaluated by an independent draft-07 validator"])
p("C08", "Type expressions parse according to the RAML grammar",
  "Every well-formed type expression (primitive and referenced names, [], ?, | and parentheses, with arbitrary nesting and blanks) resolves to the structure its grammar prescribes - array of, optional (type or nil), union of the alternatives in order, grouping without effect - whether written inline, as a property, item or type facet. Every string that is not a well-formed expression over declared names is rejected with an error.",
  ["inputs", "programs"], "all strings over the expression alphabet and all contexts in which an expression may occur",
  "Tests cover a dozen expressions; precedence, nesting, whitespace and malformed strings form an infinite space.",
  ["rdt_visitor.go", "resolve.go", "rdt/rdtLexer.g4", "rdt/rdtParser.g4", "rdt/rdt_parser.go", "rdt/rdt_lexer.go"],
  [("ANTLR parser", "rdt/"), ("visitor", "rdt_visitor.go")], ["structure of the resolved shape vs. a reference parser"])
p("C09", "References resolve to the declared target across libraries and fragments",
  "A reference in a library or DataType fragment resolves to the type (or annotation type) of that name in the same library, or through its own uses map to the named library, never to a same-named type elsewhere and never transitively through another library's uses; dotted local names take precedence. Paths resolve relative to the file that mentions them, one file is one fragment however many times or routes it is reached (diamonds, circular uses, string or path entry), and an unknown name, alias, path or wrong fragment kind is an error.",
  ["programs", "configurations"], "all multi-file projects: directory layouts, alias names, same-named types, diamond and circular uses, includes",
  "Tests use a few fixed fixtures; name clashes, relative paths in subdirectories and alternative routes are configurations they do not vary.",
  ["fragment.go", "parse.go", "resolve.go", "raml.go", "node.go"],
  [("reference lookup", "fragment.go: GetReferenceType, GetReferenceAnnotationType"), ("fragment cache", "raml.go: GetFragment/PutFragment; parse.go: parseLibrary, parseDataType")],
  ["unique marker carried by each declared type, observed at the referring type; fragment identity"])
p("C10", "No input makes the library panic, hang or kill the process",
  "For any bytes given as an entry point or included fragment, and any subset of parse options followed by any public read-only use of the result, each call returns normally with a result or an error in bounded time and memory: no panic, fatal error, stack overflow, process exit or endless loop. Malformed documents (bad header, wrong YAML node kinds, wrong facet types, undefined names, truncated or unreadable files) yield a non-nil error and never a silently accepted type.",
  ["inputs", "fault_sequences"], "all byte strings and mutations of valid projects, in every option combination",
  "Tests feed a small fixed set of malformed nodes; arbitrary structure and cyclic or type-confused input cannot be enumerated by hand, and a fatal stack overflow is not even recoverable in-process.",
  ["parse.go", "fragment.go", "shape.go", "complex.go", "scalars.go", "node.go", "example.go", "extension.go", "resolve.go", "unwrap.go", "validate.go", "jsonschemaconv.go"],
  [("node kind checks", "shape.go/complex.go/scalars.go unmarshal functions"), ("error returns", "all")], ["worker subprocess exit status, recovered panics, CPU watchdog, nil-error on corrupted declarations"])
p("C11", "Errors name the file and line of the offending construct",
  "When a project is invalid because of one construct (an undefined reference, a wrong facet value, an unknown facet, a violated override, a bad example, default or annotation value, a missing include), the returned error is a stack trace whose entries carry the path of the file containing that construct and a line inside its declaration. Several independent invalid types are all reported in one run, and a valid project reports none.",
  ["inputs", "programs"], "all single-fault and multi-fault projects over multiple files, for each fault class and position",
  "Tests assert only that some error is returned, or its message; they do not relate positions to sources.",
  ["stacktrace.go", "validate.go", "unwrap.go", "resolve.go", "parse.go", "shape.go"],
  [("positions attached to shapes and nodes", "shape.go: MakeBaseShape; node.go"), ("stack trace wrapping and appending", "stacktrace.go")], ["locations and positions of the stacktrace chain vs. the line map of the generated source"])
p("C12", "Independent instances and concurrent readers do not interfere",
  "Any number of goroutines may parse, unwrap, validate and convert with their own RAML instances at once, and any number may call Validate, Convert or read an already unwrapped model, without data races and with exactly the results of sequential execution. Identifiers, caches, hooks and errors of one instance never leak into another.",
  ["schedules"], "all interleavings of parses of different or equal projects and of readers over one unwrapped model",
  "The test suite is sequential apart from trivial cases; races need concurrent schedules under a race detector.",
  ["raml.go", "resolve.go", "rdt/rdt_parser.go", "rdt/rdt_lexer.go", "complex.go", "jsonschemaconv.go"],
  [("per-instance state", "raml.go: RAML"), ("shared lexer/parser static data", "rdt/")], ["race detector reports; results compared with the sequential run"])
p("C13", "Examples, defaults and annotations are checked against their types",
  "With validation enabled, a project is rejected if and only if it contains a type whose example, any of its examples, or default (inline, as JSON text, or included) does not satisfy the type, or an annotation value that does not satisfy its annotation type - wherever that type occurs (top level, property, pattern property, item, union member, DataType fragment, used library) - or another violation. The verdict is the same with and without unwrapping first, and the decoded example values equal the values written in the source.",
  ["programs", "inputs"], "all placements of example/examples/default/annotation and all valid or invalid values",
  "Tests place examples at one or two positions; validity at each position and form is a product of positions, types and encodings.",
  ["validate.go", "example.go", "extension.go", "node.go", "shape.go"],
  [("validateExamples / validateDomainExtensions", "validate.go"), ("data node decoding", "node.go: makeRootNode, yamlNodeToDataNode")], ["error result of validation vs. reference evaluator; Node.Value vs. source value"])
p("C14", "Custom facets are enforced on every derived type",
  "A facet declared in a type's facets map may be set by types derived from it, at any inheritance depth, and must be set when required; validation fails when a facet is set that no ancestor declares, when a required one is missing, when a value does not satisfy the facet's type, or when a type redeclares an ancestor's facet - and succeeds otherwise. Facet values and definitions are exposed on the unwrapped type.",
  ["programs"], "all inheritance chains with facet declarations, settings and values, in any kind of type",
  "Tests cover two-level chains with scalar facets; deeper chains, optionality and placement in properties or other libraries are not varied.",
  ["validate.go", "shape.go", "unwrap.go"],
  [("validateShapeFacets", "validate.go"), ("CustomShapeFacets inheritance", "shape.go: Inherit")], ["error result of validation; CustomShapeFacets of unwrapped types"])
p("C15", "Copies are independent, and validation leaves the model untouched",
  "A detached clone equals its original (also for recursive graphs) and afterwards shares no mutable type structure with it: unwrapping or modifying either never changes the other, and clones taken with one map preserve sharing between shapes. Validating without unwrapping leaves every declared type, link, alias and the list of shapes as parsed, so that a later unwrap, validate or convert behaves as if the validation had not happened.",
  ["histories", "programs"], "all type graphs and all sequences of clone, unwrap, validate, mutate and convert operations",
  "Tests clone small shapes once and compare a field or two; histories of operations over shared graphs are not explored.",
  ["shape.go", "complex.go", "scalars.go", "validate.go", "unwrap.go"],
  [("clone methods", "shape.go: clone, CloneDetached, Clone, CloneShallow"), ("unwrap cache in validation", "validate.go: unwrapShape")], ["canonical dumps and reachability of pointers before/after each operation"])
p("C16", "Faults surface: hook errors and unreadable files stop the operation cleanly",
  "If a registered hook fails at any invocation, or any fragment or included file is missing, unreadable, truncated or of the wrong kind, the operation in progress returns a non-nil error (for a hook, one wrapping the hook's error), closes every file it opened, and a fresh instance is unaffected. Hooks run in registration order (prepended ones first), exactly those currently registered, with appended, prepended, removed and cleared hooks taking effect as documented, and are called with the instance, its context and the subject of the hook point; hooks that return nil never change the result.",
  ["fault_sequences", "histories"], "all hook points, all invocation indices, all faulted files and all histories of hook registration",
  "Tests inject an error at a few hooks once; not at each invocation of each hook on rich projects, nor with descriptor accounting.",
  ["raml.go", "parse.go", "shape.go", "unwrap.go", "validate.go", "node.go"],
  [("callHooks", "raml.go"), ("file open/close", "parse.go, node.go")], ["returned errors, /proc/self/fd count, recorded hook call log"])
p("C17", "The raml command exits with failure exactly when some input is invalid",
  "'raml validate FILE...' exits non-zero if and only if at least one of the given files cannot be parsed or validated, independent of the number and order of files and of flags that only affect output. It reports an error for each failing file and never crashes.",
  ["inputs", "configurations"], "all argument lists of valid, invalid and missing files, all flag combinations",
  "The command has no tests that run it end to end with several files.",
  ["cmd/raml/validate.go", "cmd/raml/raml.go"],
  [("per-file loop and exit status", "cmd/raml/validate.go, raml.go")], ["exit status and output of the built binary"])
p("C18", "Schema objects: copies are independent and all views agree",
  "For any JSON Schema object, DeepCopy is equal to and shares no mutable structure with the original, and Map() describes exactly the document that JSON marshalling produces, including every extension keyword; unmarshalling a document over the supported keywords and marshalling it again loses nothing. A JSON Schema embedded as a type passes through conversion with its keywords intact.",
  ["inputs", "histories"], "all schema documents over the supported keywords, nested arbitrarily, and all mutations of copies",
  "Tests check a few populated fields; nested combinations of all keywords and mutation after copying are not covered.",
  ["schema.go", "jsonschemaconv.go"],
  [("DeepCopy, ShallowCopy, Map", "schema.go"), ("recast", "jsonschemaconv.go")], ["JSON text before/after mutation, Map() vs json.Marshal"])
p("C19", "Unwrapping is complete, idempotent and agrees with every processing mode",
  "After OptWithUnwrap every shape reachable from any fragment is unwrapped, resolved and free of unresolved links, has the type of its shape, every recursion is cut by a mark and every mark describes the type it leads to; unwrapping again changes nothing. The accept/reject verdict of validation is the same whether requested with or without unwrapping, in one call or step by step, for an entry given as string or path, and the resulting types and value verdicts are the same.",
  ["programs", "histories"], "all projects and all orders of parse, unwrap, validate and convert calls",
  "Tests run one mode per fixture and inspect the entry type only.",
  ["unwrap.go", "validate.go", "parse.go", "resolve.go"],
  [("UnwrapShapes / UnwrapShape", "unwrap.go"), ("ValidateShapes", "validate.go")], ["walk over all reachable shapes; dumps and verdicts per mode"])
p("C20", "The model mirrors the source: everything declared is there, and nothing else",
  "For every well-formed project the parsed model contains each declared type, annotation type, uses entry, property, facet, enum member, example, default, annotation and documentation string with the declared name, value, required flag and source position, in declaration order, and nothing that was not declared. Types without an explicit type get the kind their facets determine.",
  ["inputs", "programs"], "all well-formed projects and layouts",
  "Tests inspect selected fields of fixed fixtures; loss, duplication or reordering of declarations under arbitrary combinations is not observed.",
  ["fragment.go", "shape.go", "complex.go", "scalars.go", "node.go", "example.go", "extension.go"],
  [("unmarshal functions", "fragment.go, shape.go, complex.go, scalars.go")], ["walk of the public model compared with the abstract project that was printed"])
p("C21", "Types built through the API mean what the same declarations mean as text",
  "Types assembled with the exported constructors and fields (MakeBaseShape, MakeNewShape, MakeConcreteShapeYAML, MakeJSONShape, MakeLibrary, MakeDataType, facet fields, Inherits, Alias, Link, AnyOf, Items, property maps) and registered with PutFragment are unwrapped, validated, converted and judged exactly as the same declarations parsed from RAML text: same verdict, same model, same answers for every value. BaseShape.Inherit of one finished type from another succeeds exactly when a type derived from both is acceptable, gives that type, and never changes any of the types inherited from, also when several are inherited one after another.",
  ["programs", "inputs", "histories"], "all type graphs that can be assembled, all pairs of finished types",
  "Tests build single shapes by hand and call one method on them; whole assembled projects are never unwrapped, validated or compared with their textual form.",
  ["shape.go", "raml.go", "fragment.go", "unwrap.go", "validate.go", "complex.go", "scalars.go"],
  [("constructors", "shape.go: MakeBaseShape, MakeNewShape, MakeConcreteShapeYAML, MakeJSONShape; fragment.go: MakeLibrary, MakeDataType"), ("Inherit", "shape.go: Inherit, inheritFrom")], ["verdicts and models of assembled and parsed projects side by side"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
