# technique and level note per claimed property
NA = {}
LEVEL = {}
CL["C01"] = ("online oracle: verdicts of the running validator compared with an independent reference evaluator on generated projects and values", None)
CL["C02"] = ("online oracle: public facet fields of every unwrapped type compared with a reference flattener on generated inheritance graphs, and child/parent verdicts compared on values", None)
CL["C03"] = ("online oracle: accept/reject outcome of the real unwrap/validate on an exhaustive table of override pairs at all positions and on random facet edits, compared with the demanded verdict", None)
CL["C19"] = ("runtime monitor: invariant walk over every reachable shape after unwrapping, plus differential comparison of models, verdicts and dumps across 12 processing modes", None)
CL["C07"] = ("online oracle: an independent draft-07 validator and reference evaluator judge every converted schema (well-formedness, reference resolution, verdict equality, annotations) and conversions are monitored for repeatability and side effects", None)
CL["C05"] = ("runtime monitor: differential comparison (verdicts, full model dumps, schema bytes, value verdicts) of repeated, restyled, reordered and renamed renderings of the same project", None)
CL["C04"] = ("runtime monitor: differential comparison of every type's model, verdicts and schema in the whole project with the same type loaded together with only what it refers to", None)
CL["C15"] = ("runtime monitor: object-graph comparison, address-disjointness walk and vandalism of clones and originals in three processing states", None)
CL["C10"] = ("runtime monitor: panics, fatal errors, CPU and heap bounds supervised per case in worker processes under mutation fuzzing, growing inputs and planted malformations that must be reported, in all option combinations and with every read-only operation on the results", None)
CL["C08"] = ("online oracle: an independent recursive descent parser judges every string; acceptance and the shape structure built by the library are compared in 11 contexts, exhaustively for short token strings and randomly for longer ones", None)
CL["C09"] = ("online oracle: an independent resolver over projects with colliding names judges which declaration every reference reached (marker values, alias and fragment identity), and that references which must not resolve are errors", None)
CL["C06"] = ("runtime monitor and online oracle: random cyclic type graphs in all modes under CPU, heap and panic supervision; verdicts of Validate, of declared values and of the converted schema compared with a reference evaluator that unfolds declarations lazily", None)
CL["C12"] = ("Go race detector on the real library under concurrent workloads with yields and sleeps injected through the library's own hook points, plus differential comparison of every goroutine's results with sequential runs", None)
CL["C18"] = ("runtime monitor: schema objects from random documents, conversions and embedded types; JSON text compared across all views, reflection walk for shared memory, and overwriting of everything reachable in copies and originals", None)
CL["C16"] = ("runtime monitor with fault injection: every hook point failed at chosen invocations, every needed file damaged, descriptors counted, call logs of random registration histories compared with a list model", None)
CL["C17"] = ("runtime monitor: exit status, output and termination of the real command, built from the working tree, on random argument lists judged by the reference evaluator, repeated permuted and one by one", None)
CL["C20"] = ("runtime monitor: walk of the whole public model next to the abstract project that was printed (about 350 facts per project), over random projects, layouts and entry modes", None)
CL["C13"] = ("runtime monitor: verdicts of five entry modes on projects with valid and invalid examples, defaults and annotation values injected at random places and in all written forms, judged by the reference evaluator; decoded values compared with the source", None)
CL["C14"] = ("runtime monitor: verdicts of five entry modes and the unwrapped model of random projects with chains of facet declarations and values, judged by the reference evaluator", None)
CL["C11"] = ("runtime monitor: stack traces of random multi-file projects with one planted fault (12 classes) or several independent ones, in four entry modes, compared with the lines where the printer put the faulty constructs", None)
CL["C21"] = ("runtime monitor: random projects assembled through the exported API next to their parsed text; verdicts, models, value verdicts and schemas compared with each other and with the reference, Inherit judged by the reference on pairs of finished types", None)
