"""The properties and the checks that decide them; tools/gen.py writes properties.jsonl and
MANIFEST.json from this list."""


def P(pid, title, statement, over, qtext, why, files, mechanism, technique, note,
      level="exploration", observe=None):
    return dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                files=files, mechanism=mechanism, technique=technique, note=note, level=level,
                observe=observe)


ENUM = "bounded exhaustive enumeration on the real executable against a reference model"
SMALL = ("Exhaustive within the families listed in the evidence (every model of each family); "
         "larger models are covered only by the small-scope argument. Trusts the reference "
         "model in lib/ (truth tables, written independently of scram's algorithms).")

PROPS = [
    P("P01", "Reported minimal cut sets are exactly the minimal cut sets",
      "For every fault tree the products reported without the prime-implicants option are exactly "
      "the minimal cut sets of the top event's function: every reported set makes the top event "
      "occur (complemented events assumed not to hold where the tree is non-coherent), none is "
      "a superset of another, and none is missing. With a product-order limit exactly those of "
      "them within the limit are reported, and the BDD, ZBDD and MOCUS algorithms report the same.",
      ["inputs", "configurations"],
      "all fault trees (connectives, sharing, negation, modules, house events, constants), all "
      "three algorithms, all order limits",
      "tests analyse a few dozen shipped trees; rewriting and minimisation have many guarded "
      "special cases that only particular sharing/negation patterns reach",
      ["src/pdag.cc", "src/preprocessor.cc", "src/bdd.cc", "src/zbdd.cc", "src/mocus.cc",
       "src/fault_tree_analysis.cc"],
      [("graph construction and normalisation", "src/pdag.cc"),
       ("preprocessing rewrites and module detection", "src/preprocessor.cc"),
       ("BDD construction", "src/bdd.cc"), ("minimal products", "src/zbdd.cc"),
       ("top-down expansion", "src/mocus.cc")], ENUM, SMALL),
    P("P02", "Reported prime implicants are exactly the prime implicants",
      "With the prime-implicants option the reported products are exactly the prime implicants of "
      "the top event's function, complemented events included, restricted to the product-order "
      "limit. The constant functions are reported as the empty set of products and the single "
      "empty product.",
      ["inputs", "configurations"], "all fault trees, all order limits",
      "tests compute prime implicants of a handful of trees",
      ["src/zbdd.cc", "src/bdd.cc", "src/preprocessor.cc", "src/pdag.cc"],
      [("prime implicants from the consensus of cofactors", "src/zbdd.cc"),
       ("graph rewriting before the BDD", "src/preprocessor.cc")], ENUM, SMALL),
    P("P03", "Exact probability equals the probability of the Boolean function",
      "With the BDD algorithm and no approximation the reported total probability is the "
      "probability that the top event's function is true when every basic event is "
      "independently true with its own probability, for every tree and every probability "
      "assignment including zero and one.",
      ["inputs", "configurations"], "all fault trees, all probability vectors",
      "tests compare a few totals with hand-computed values",
      ["src/probability_analysis.cc", "src/bdd.cc", "src/preprocessor.cc", "src/pdag.cc"],
      [("bottom-up evaluation over the decision diagram", "src/probability_analysis.cc"),
       ("complement edges and module proxies", "src/bdd.cc")], ENUM, SMALL),
    P("P04", "Approximations, product figures and their limits are as defined",
      "The rare-event total is the sum of the probabilities of the reported products clamped to "
      "one; the min-cut-upper-bound total is one minus the product of their complements; each "
      "product's reported order, probability and contribution, and the order distribution, are "
      "those of the listed products. Products and totals respect the settings that select the "
      "approximation for each algorithm.",
      ["inputs", "configurations"], "all fault trees, algorithms, approximations, probabilities",
      "tests check single totals; the relation must hold for every tree and setting",
      ["src/probability_analysis.cc", "src/fault_tree_analysis.cc", "src/reporter.cc",
       "src/settings.cc"],
      [("cut-set calculators", "src/probability_analysis.cc"),
       ("products and contributions in the report", "src/reporter.cc")], ENUM, SMALL),
    P("P05", "Importance factors equal their defining quotients",
      "For each basic event of some product the reported marginal (MIF), critical (CIF), "
      "diagnosis (DIF), risk-achievement (RAW) and risk-reduction (RRW) factors are the "
      "documented functions of the total probability with the event certain and impossible, for "
      "the exact method and both approximations. Exactly the events of the products are listed, "
      "once, with their probability and number of occurrences in products.",
      ["inputs", "configurations"], "all fault trees, probabilities and calculation methods",
      "tests check the factors of two or three trees",
      ["src/importance_analysis.cc", "src/bdd.cc", "src/reporter.cc"],
      [("marginal factor over the decision diagram", "src/importance_analysis.cc"),
       ("event occurrences", "src/importance_analysis.cc")], ENUM, SMALL),
    P("P06", "Common-cause groups expand into the documented parametric model",
      "With common-cause analysis every member of a group is replaced by the disjunction of its "
      "independent failure and all common-cause events of its combinations, with the probabilities "
      "of the beta-factor, multiple-Greek-letter, alpha-factor or phi-factor model; without it "
      "members are independent events with the group's distribution. Groups whose factors or "
      "members are invalid (levels, ranges, sums, too few members, double membership, missing or "
      "double distribution) are rejected with a validation error.",
      ["inputs", "configurations"],
      "all models, group sizes, factor-level sets and factor values, on trees over the members",
      "tests have one or two groups per model with fixed factors",
      ["src/ccf_group.cc", "src/ccf_group.h", "src/initializer.cc", "src/pdag.cc"],
      [("factor formulas and event generation", "src/ccf_group.cc"),
       ("replacement of members by gates", "src/ccf_group.cc"),
       ("group parsing", "src/initializer.cc")], ENUM, SMALL),
    P("P07", "Deterministic expressions evaluate to their documented value",
      "Every arithmetic, logical, conditional, elementary-function and built-in reliability "
      "expression evaluates, at every mission time, to the value of its documented formula on the "
      "values of its arguments; named parameters have the value of their expression and the "
      "units are those declared. An extern function gets its arguments in order and as its declared "
      "types, and comes from the library at the path relative to the file that names it. Expressions whose arguments are outside the "
      "documented domain, or extern functions with another number of arguments, are rejected when the "
      "model is validated, before any analysis.",
      ["inputs"], "all expression shapes up to a depth over boundary-value arguments",
      "tests evaluate each expression on one or two arguments",
      ["src/expression/numerical.h", "src/expression/numerical.cc", "src/expression/boolean.h",
       "src/expression/conditional.h", "src/expression/exponential.cc",
       "src/expression/test_event.cc", "src/expression/extern.h", "src/expression/extern.cc",
       "src/initializer.cc", "src/parameter.cc"],
      [("evaluation", "src/expression/numerical.h"),
       ("reliability built-ins", "src/expression/exponential.cc"),
       ("argument count and kind", "src/initializer.cc")],
      "exhaustive enumeration of expression trees over a boundary-value alphabet against a "
      "reference evaluator", SMALL),
    P("P08", "Random deviates stay in their domain and report sound intervals",
      "For every parameter assignment a random-deviate expression either is rejected by validation "
      "because its parameters are outside the documented domain, or has its documented mean and "
      "draws samples of the documented distribution, inside its support (uniform, beta, histogram: "
      "inside the interval it reports). The interval of every other built-in expression contains "
      "its value for all argument values within their own intervals, and its samples are its value "
      "on the samples of its arguments.",
      ["inputs"], "all deviates and expressions over a boundary-value parameter alphabet",
      "tests use one valid and one invalid parameter set per deviate",
      ["src/expression/random_deviate.cc", "src/expression/random_deviate.h",
       "src/expression/numerical.cc", "src/expression/exponential.h", "src/expression.h"],
      [("validation, mean and domain of deviates", "src/expression/random_deviate.cc"),
       ("intervals of functions", "src/expression/numerical.cc")],
      "exhaustive enumeration of parameter assignments on the real expression objects against "
      "reference formulas", SMALL),
    P("P09", "Uncertainty statistics describe one consistent set of trials",
      "The reported mean, standard deviation, error factor, quantiles, confidence interval and "
      "histogram are the statistics of exactly the requested number of trials in which each named "
      "random quantity is drawn once per trial and shared by all its uses. With "
      "deterministic data the spread is zero, and bins and quantiles partition the samples.",
      ["inputs", "configurations"], "models, trial counts, bin and quantile counts, seeds",
      "tests only check plausibility ranges of one model",
      ["src/uncertainty_analysis.cc", "src/expression.h", "src/expression/random_deviate.h",
       "src/reporter.cc"],
      [("sampling and statistics", "src/uncertainty_analysis.cc"),
       ("one draw per trial", "src/expression/random_deviate.h")],
      "exhaustive enumeration of a deviate-output alphabet: the real trial loop is driven through "
      "all sequences of draws and compared with reference statistics", SMALL),
    P("P10", "Time-dependent results and SIL follow from the pointwise probability",
      "With a time step the reported curve contains the probability at each multiple of the step "
      "below the mission time and at the mission time itself, each equal to an analysis whose "
      "mission time is that instant. The reported PFDavg and PFHavg are "
      "the documented averages over the curve and the histogram fractions are the shares of the "
      "mission time spent in each SIL band, summing to one while the curve stays in the bands.",
      ["inputs", "configurations"],
      "models, mission times and steps, curves crossing every band boundary",
      "tests use one model with one step",
      ["src/probability_analysis.cc", "src/probability_analysis.h", "src/settings.cc",
       "src/reporter.cc"],
      [("probability over time and SIL partition", "src/probability_analysis.cc")], ENUM, SMALL),
    P("P11", "Event-tree sequences get exactly the outcomes of their paths",
      "For every initiating event the sequences reported are those its event tree reaches, and the "
      "result of each is the disjunction over the paths to it of the conjunction of the collected "
      "fault-tree results (or product of collected expressions) under the functional-event states "
      "and house-event settings of that path. Linked trees, rules, named branches and "
      "if-then-else instructions act as documented, and the sequences' exclusive paths keep "
      "their total consistent.",
      ["inputs", "programs"], "all small event trees over the instruction alphabet",
      "tests run four shipped event trees and check for success",
      ["src/event_tree_analysis.cc", "src/event_tree.cc", "src/instruction.h",
       "src/initializer.cc", "src/risk_analysis.cc"],
      [("sequence collection", "src/event_tree_analysis.cc"),
       ("per-sequence fault tree", "src/event_tree_analysis.cc")], ENUM, SMALL),
    P("P12", "Alignment phases use their own settings and leave nothing behind",
      "Each phase of an alignment is analysed with the mission time scaled by its fraction and the house "
      "events set by its instructions, independently of the other phases and of their order. "
      "Results outside the phases, and later phases, see the original settings; alignments whose "
      "fractions are not positive or do not sum to one are rejected.",
      ["inputs", "histories"], "all small alignments over house events and fractions, all orders",
      "one shipped alignment is only run for success",
      ["src/alignment.cc", "src/risk_analysis.cc", "src/initializer.cc"],
      [("phase context and restoration", "src/risk_analysis.cc"),
       ("fraction validation", "src/alignment.cc")], ENUM, SMALL),
    P("P13", "Substitutions rewrite products as their declared type demands",
      "A delete-terms, recovery-rule or exchange-event substitution changes the analysis as the "
      "documented implication on products says, declarative substitutions for every algorithm "
      "and non-declarative ones where supported. Substitutions outside their documented "
      "restrictions, or incompatible with the requested analysis, are rejected.",
      ["inputs", "configurations"], "all small trees with all small substitutions",
      "tests have a handful of substitution models",
      ["src/substitution.cc", "src/pdag.cc", "src/initializer.cc", "src/mocus.cc",
       "src/zbdd.cc"],
      [("type and validity of a substitution", "src/substitution.cc"),
       ("coherent and non-declarative application", "src/pdag.cc")], ENUM, SMALL),
    P("P14", "A model is rejected for cyclic definitions exactly if it has a cycle",
      "Models in which gates, parameters, event-tree links, named branches or rules refer to "
      "themselves directly or through others are rejected with an error naming a cycle that "
      "exists in the model; acyclic models are never rejected as cyclic, whatever the "
      "sharing or the order of definition.",
      ["inputs"], "all reference graphs over up to four nodes of each kind",
      "tests contain one cyclic model per kind",
      ["src/cycle.h", "src/cycle.cc", "src/initializer.cc"],
      [("depth-first search with marks", "src/cycle.h")], ENUM, SMALL),
    P("P15", "Every model is either analysed or rejected with a clear error",
      "An input that violates the schema or a documented semantic rule (duplicates, undefined "
      "references, wrong types or argument counts, probabilities outside zero to one, mutually "
      "inconsistent data) makes the tool exit non-zero with an error message and no partial report; "
      "an input that satisfies them is accepted. The tool never crashes, aborts or "
      "hangs on an input.",
      ["inputs"], "all single and paired mutations of a set of base models",
      "tests check one bad file per rule",
      ["src/initializer.cc", "src/initializer.h", "src/model.cc", "src/element.cc",
       "src/event.cc", "src/scram.cc", "share/input.rng"],
      [("validation in the initializer", "src/initializer.cc"),
       ("exception to exit status", "src/scram.cc")], ENUM, SMALL),
    P("P16", "References resolve to the documented element by scope and role",
      "A reference resolves first relative to the container it stands in (private elements and "
      "relative paths included), otherwise to the public element of that name or the element of that "
      "full path; outside its container a private element is reachable only by its full path. The "
      "result does not depend on the definition order, and an undefined reference or a second "
      "definition of a name in one scope is rejected.",
      ["inputs"], "all small container trees with roles and reference forms",
      "tests have one model with nested private names",
      ["src/model.cc", "src/model.h", "src/element.cc", "src/initializer.cc"],
      [("lookup with base path", "src/model.cc"), ("roles", "src/element.cc")], ENUM, SMALL),
    P("P17", "Results do not depend on definition order or on the split into files",
      "Reordering the definitions of a model, splitting it over several input files in any order, "
      "or passing the files through a project instead of the command line gives the "
      "same analysis results.",
      ["inputs", "histories"], "all orderings and file splits of a set of base models",
      "tests read each model in one order",
      ["src/initializer.cc", "src/model.cc", "src/project.cc"],
      [("two-phase registration and definition", "src/initializer.cc")], ENUM, SMALL),
    P("P18", "Every report is well-formed, schema-valid and faithful to names and labels",
      "Whatever the analyses, names, labels and attributes of a model, a successful run writes a "
      "report that is well-formed XML, valid against the report schema, and carries names "
      "and labels unchanged; the software and settings "
      "information describes the run.",
      ["inputs", "configurations"], "characters and strings over an alphabet, analysis options",
      "tests validate a few reports with plain ASCII labels",
      ["src/reporter.cc", "src/xml_stream.h", "share/report.rng"],
      [("streaming writer and escaping", "src/xml_stream.h"), ("sections", "src/reporter.cc")],
      "exhaustive enumeration of strings, writer operation sequences and option combinations",
      SMALL),
    P("P19", "Settings hold their invariants over every sequence of changes",
      "Every sequence of option changes through the API, the project file and the command line "
      "leaves settings within the documented ranges and mutually consistent, a rejected change "
      "leaves them as they were, and command-line options override the project "
      "file only where given. Impossible combinations are rejected with an error.",
      ["histories", "configurations"], "all settings call sequences up to a depth; all option pairs",
      "tests try single invalid values",
      ["src/settings.cc", "src/settings.h", "src/scram.cc", "src/project.cc"],
      [("setters", "src/settings.cc"), ("option handling", "src/scram.cc"),
       ("project options", "src/project.cc")],
      "explicit-state search over settings operation sequences on the real object with a "
      "reference model; exhaustive option combinations of the executable", SMALL,
      level="model_checking"),
    P("P20", "A failed write never looks like success",
      "If writing the report or a serialized model fails at any point, the "
      "run ends with a non-zero status and an error message, and it ends with status zero only "
      "if the whole output has reached the file.",
      ["fault_sequences"], "every write, flush and close of a run failing in each way",
      "tests have no failing device",
      ["src/xml_stream.h", "src/reporter.cc", "src/scram.cc", "src/serialization.cc"],
      [("stream state check", "src/xml_stream.h"), ("file handling", "src/reporter.cc")],
      "fault enumeration: every output call of a run fails in turn under an interposed C library",
      "Exhaustive over all output calls of the explored runs and the listed failure kinds.",
      level="fault_enumeration"),
    P("P21", "A serialized model reads back as an equivalent model",
      "Serializing any model that the serializer accepts gives a schema-valid "
      "document that reads back to a model with the same gates, events, labels, roles, "
      "attributes and constants, the same numbers, and the same analysis results.",
      ["inputs"], "all small models over the serializable alphabet",
      "one test serializes a few inputs and only validates them",
      ["src/serialization.cc", "src/xml_stream.h", "src/initializer.cc"],
      [("serializer", "src/serialization.cc")], ENUM, SMALL),
    P("P22", "GUI edits keep the model consistent, and undo and redo are exact inverses",
      "After any sequence of editor commands, undoing them restores the previous model exactly and "
      "redoing restores the edited one, including names, references, tables and the fault-tree top. "
      "Every intermediate model saves to a document that the editor opens as the same model.",
      ["histories"], "all edit/undo/redo sequences up to a depth on small models",
      "tests run each command once, undone once",
      ["gui/model.cpp", "gui/model.h", "src/model.cc", "src/fault_tree.cc"],
      [("undo commands", "gui/model.cpp"), ("proxies and signals", "gui/model.h")],
      "explicit-state search over command sequences on the real classes with a reference model",
      SMALL, level="model_checking"),
    P("P23", "Generated fault trees are valid, honour their parameters, are written right",
      "Whatever its random decisions, the fault tree generator (scripts/fault_tree_generator.py) writes a "
      "model that is valid against the schema, that the tool accepts, whose gates are acyclic, all "
      "reachable from the root and whose events are all used and defined once, with exactly the "
      "requested numbers of basic and house events, probabilities within the requested bounds, only "
      "gate types of positive weight and with a legal number of arguments, and no event in two "
      "common-cause groups; its summary agrees with the tree. Illegal parameters are rejected. The same seed gives "
      "the same tree, the nested and the Aralia form of it describe the same tree, and with at least "
      "ten basic events it comes to an end. The writers of scripts/fault_tree.py give back any tree they "
      "are given. The N-queens tree (scripts/nqueens.py) is true for exactly the peaceful placements.",
      ["inputs", "configurations"], "all parameter combinations of a grid; all single deviations of the random decisions",
      "tests generate a handful of trees with one seed and look at their counts",
      ["scripts/fault_tree.py", "scripts/fault_tree_generator.py", "scripts/nqueens.py"],
      [("generator", "scripts/fault_tree_generator.py"), ("writers", "scripts/fault_tree.py"), ("N queens", "scripts/nqueens.py")],
      "stateless exploration of the real generator under a controlled random source: every single "
      "decision of every run is replaced by each of its alternatives; every tree written is read back", SMALL),
    P("P24", "Results are a function of the input, not of history or environment",
      "Repeating a run gives the same results; running analyses "
      "in any order or together on the same model, or repeating one on the same loaded model, gives each "
      "the results it has alone, and uncertainty results repeat for the same seed.",
      ["histories", "configurations"], "all analysis sequences up to a depth; all subsets of analyses",
      "tests run each analysis in a fresh process once",
      ["src/risk_analysis.cc", "src/fault_tree_analysis.cc", "src/pdag.cc", "src/expression.cc",
       "src/event.h"],
      [("marks and visited flags on the shared model", "src/pdag.cc"),
       ("mission time in the model", "src/parameter.cc")],
      "explicit-state exploration of analysis histories on the real library, compared with "
      "the fresh-process result of every step", SMALL, level="model_checking"),
    P("P25", "No input makes the tool use memory wrongly or execute undefined behaviour",
      "On no model, project or option set does the tool read or write outside its objects, use freed "
      "memory, leak across an analysis, overflow signed arithmetic or otherwise execute undefined "
      "behaviour.",
      ["inputs", "configurations"], "the models and histories of the other explorations",
      "tests are run without sanitizers on well-behaved inputs",
      ["src"], [("whole core", "src")],
      "bounded exhaustive enumeration under AddressSanitizer and UndefinedBehaviorSanitizer",
      "Exhaustive within the listed families; a sanitizer report is a violation."),
    P("P26", "The editor's dialogs show what is there and change only what the user changes",
      "A dialog of an element or of the settings shows exactly its current data; accepted without edits it "
      "changes nothing. Whatever the user does in the event dialog, it can be accepted exactly when the "
      "definition is valid (free and well-formed name, number of arguments fit for the connective, no duplicates "
      "or cycles, probability within [0, 1], nonnegative rate), and then the main window makes exactly that "
      "change: the saved document has it, undo takes it all back, redo restores it; cancelling changes nothing. "
      "The settings dialog gives the settings on display, only consistent ones, and keeps those it does not show.",
      ["histories", "inputs"], "all sequences of user actions up to a depth on the dialogs and in the window",
      "no test opens a dialog or the window",
      ["gui/eventdialog.cpp", "gui/settingsdialog.cpp", "gui/mainwindow.cpp", "gui/validator.cpp"],
      [("event dialog", "gui/eventdialog.cpp"), ("settings dialog", "gui/settingsdialog.cpp"),
       ("edits from the dialogs", "gui/mainwindow.cpp")],
      "explicit-state search over sequences of user actions on the real widgets with a reference model",
      SMALL, level="model_checking"),
]
