#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe}})

prop("C01", "Writing a model as XML and reading it back yields the same model",
 "For every well-formed feature model, the XML produced for it validates against the model schema and reading it back gives an equal model: same name, root path, commit, features (kind, optionality, output string, numeric values, step function, source locations with category, member offset and revision range), same tree, and the same alternative groups where the group holds all children of its feature. Other groups, which the format cannot express, are kept as constraints. The re-read model has the same constraints up to logical meaning, so it admits exactly the same valid configurations. Writing the re-read model again produces the same text. A model the format cannot express (a location without start or end, an empty value list) is refused. Writing to a file either writes all of this under exactly the given name or reports a failure.",
 ["inputs"], "all feature models expressible through the public builder whose root is called root or base, whose names are identifiers and whose text survives XML trimming",
 "the tests compare five fixed documents; field losses, truncations and escaping errors only show for particular combinations of values",
 ["lib/Feature/FeatureModelWriter.cpp", "lib/Feature/FeatureModelParser.cpp", "lib/Feature/XmlConstants.h"],
 [("XML writer", "lib/Feature/FeatureModelWriter.cpp writeFeatureModel/writeFeature/write*Constraints/writeSourceRange"),
  ("XML reader", "lib/Feature/FeatureModelParser.cpp FeatureModelXmlParser")],
 ["FeatureModelXmlWriter::writeFeatureModel", "FeatureModelXmlParser::buildFeatureModel", "public FeatureModel API"])

prop("C02", "The XML reader loads exactly what the document says",
 "For every schema-valid model document with a consistent tree, loading succeeds and the model has exactly the described name, path, commit, features, optionality, output strings, numeric values, step functions, source locations, implied and excluded options, constraints with their kind and requirement attributes, and parent/child edges however they are stated (parent element, children element or both). Siblings that are all mandatory and all mutually excluded form one alternative group, and no other group appears. The order of options in the document, whitespace and comments make no difference, and a document that violates the schema, defines an option twice, gives one option two parents, makes an option its own ancestor, or contains an unreadable constraint or a reference to an undefined option is rejected.",
 ["inputs"], "all generated schema-valid documents, printed by a printer independent of the code under test",
 "the tests load a couple of dozen fixed files; the combinations of optional elements, orderings and spellings are unbounded",
 ["lib/Feature/FeatureModelParser.cpp", "lib/Feature/XmlConstants.h", "include/vara/Feature/FeatureModelParser.h", "lib/Feature/FeatureModelBuilder.cpp"],
 [("option parsing", "FeatureModelXmlParser::parseConfigurationOption"), ("constraint sections", "FeatureModelXmlParser::parseConstraints"),
  ("alternative detection", "FeatureModelXmlParser::detectXMLAlternatives"), ("source ranges", "FeatureModelXmlParser::createFeatureSourceRange")],
 ["FeatureModelXmlParser::buildFeatureModel", "loadFeatureModel"])

prop("C03", "Arbitrary input never crashes the XML reader",
 "For every byte string given to the model reader or verifier, the call returns: it either rejects the input or yields a consistent model (one root, every other feature has a parent that lists it as child, no cycles). It never crashes, reads invalid memory or hangs. Whatever the verifier rejects, the reader rejects too.",
 ["inputs"], "arbitrary byte strings and structural mutations of valid documents",
 "tests contain a handful of malformed files; robustness is about all inputs",
 ["lib/Feature/FeatureModelParser.cpp", "lib/Feature/FeatureModel.cpp"],
 [("document parsing and DTD validation", "FeatureModelXmlParser::parseDoc"), ("tree construction", "FeatureModelBuilder::buildFeatureModel")],
 ["FeatureModelXmlParser::buildFeatureModel", "FeatureModelXmlParser::verifyFeatureModel", "loadFeatureModel", "verifyFeatureModel"])

prop("C04", "Constraint text is parsed by its documented grammar",
 "Constraint text is parsed with the documented precedence (unary, then multiplicative, additive, comparison, equality, and, or, implication, equivalence) and left associativity, for every expression, with any redundant parentheses and whitespace and with every alternative operator spelling. Integer literals in plain or scientific notation (read with double precision) denote their value, clamped to 64 bits. Text outside the grammar is rejected without a constraint, and no text crashes the parser.",
 ["inputs"], "all expressions of the grammar and arbitrary strings over its alphabet",
 "operator/precedence interactions are quadratic in operators and unbounded in depth; tests fix about 60 strings",
 ["include/vara/Feature/ConstraintParser.h"],
 [("lexer", "ConstraintLexer::munch"), ("precedence climbing", "ConstraintParser::parseConstraint"), ("integers", "parseInteger")],
 ["ConstraintParser::buildConstraint"])

prop("C05", "The constraint builder builds what its calls spell",
 "For every sequence of constraint-builder calls, the built constraint is the one obtained by reading the calls as an infix expression with the documented precedence, left associativity and parentheses. A sequence that is not a complete expression (missing operand, missing operator, unbalanced parentheses) yields no constraint. No sequence crashes.",
 ["histories"], "all sequences of builder calls up to the generated length",
 "the builder is a state machine over call sequences; the tests fix about 40 of them",
 ["include/vara/Feature/ConstraintBuilder.h"],
 [("frame stack", "ConstraintBuilder::binary/unary/openPar/closePar/operator()")],
 ["ConstraintBuilder::build"])

prop("C06", "Constraints copy and print faithfully",
 "A copy of any constraint is structurally equal to it, shares no node with it, and every node of the copy points to its own parent, so changing or destroying one never affects the other. The printed text of any constraint parses back to a constraint with the same structure and meaning (an exclusion reads back as the equivalent implication). The HTML form is the printed text with markup characters escaped.",
 ["inputs"], "all constraint trees over all operators, features and 64-bit constants",
 "tests print and clone one small tree per operator; nesting and values are unbounded",
 ["include/vara/Feature/Constraint.h", "lib/Feature/Constraint.cpp", "include/vara/Feature/ConstraintParser.h"],
 [("clone", "Constraint::clone of each kind"), ("printing", "Constraint::toString/toHTML of each kind")],
 ["Constraint::clone", "Constraint::toString", "Constraint::toHTML", "Constraint::getRoot"])

prop("C07", "Enumeration yields exactly the valid configurations",
 "For every feature model (numeric options being outside groups), the enumerated configurations are exactly the assignments that satisfy the model, each exactly once: the root is selected, a child implies its parent, mandatory children outside groups follow their parent, each numeric option is always present and takes a value of its list or stepped range, alternative groups select exactly one and or groups at least one member under a selected parent, and all boolean, non-boolean and mixed constraints hold. An unsatisfiable model yields none. Every configuration names every feature of the model.",
 ["inputs"], "all generated models with up to about ten features, checked against brute-force enumeration",
 "a wrong clause only shows on models whose solution set it changes; tests check counts on five models",
 ["lib/Solver/Z3Solver.cpp", "lib/Solver/SolverFactory.cpp"],
 [("feature encoding", "Z3Solver::addFeature/setBinaryFeatureConstraints"), ("group encoding", "Z3Solver::addRelationship"),
  ("constraint translation", "Z3SolverConstraintVisitor"), ("blocking clause", "Z3Solver::excludeCurrentConfiguration")],
 ["ConfigurationFactory::getAllConfigs"])

prop("C08", "All configuration queries agree with each other",
 "For every feature model and every n, the number of configurations equals the size of the complete enumeration, asking for n configurations returns exactly min(n, total) distinct valid ones, iterating lazily visits the complete enumeration once, and the validity query is true exactly when at least one configuration exists. Queries do not modify the model, so repeating them gives the same answer.",
 ["inputs", "histories"], "all generated models, all n, and sequences of queries on one model",
 "the relations hold between API calls over all models; tests check one model per call",
 ["include/vara/Solver/ConfigurationFactory.h", "include/vara/Solver/SolverFactory.h", "lib/Solver/Z3Solver.cpp"],
 [("lazy iterator", "ConfigurationIterable"), ("bulk queries", "ConfigurationFactory::getAllConfigs/getNConfigs/getNumConfigs/isValid")],
 ["ConfigurationFactory", "ConfigurationIterable"])

prop("C09", "Model edits keep the model a well-formed tree with the stated effect",
 "After any history of committed edits (adding, moving and removing features, adding and removing groups and source locations, adding constraints, setting name, path, commit or root) the model is well formed: one root, every other feature is listed exactly once under its parent, everything is reachable from the root, no cycles, groups belong to one feature, and every constraint refers to features of this model and is registered with them. Each edit has exactly its stated effect and changes nothing else; an edit that would make a feature its own ancestor, duplicate a name, or refer to something absent is refused, with the error code for that case wherever the call reports one, and has no effect. This holds for the in-place and the copying transaction alike.",
 ["histories"], "all generated edit histories, executed against a reference model",
 "invariants over unbounded histories of interacting edits; each test performs one or two",
 ["include/vara/Feature/FeatureModelTransaction.h", "lib/Feature/FeatureModelTransaction.cpp", "lib/Feature/FeatureModel.cpp"],
 [("modifications", "detail::AddFeatureToModel, RemoveFeatureFromModel, AddRelationshipToModel, RemoveRelationshipFromModel, AddChild, SetRoot, AddConstraintToModel"),
  ("transaction commit", "FeatureModelModifyTransactionBase::commitImpl")],
 ["FeatureModelModifyTransaction", "FeatureModelCopyTransaction", "addFeature/removeFeature/addRelationship/... helpers"])

prop("C10", "Transactions are isolated until commit",
 "Whatever edits a copying transaction performs, the original model stays exactly as it was, and committing returns a separate model containing the edits; committing twice or after an abort returns an error and no model. Edits queued in an in-place transaction have no effect before commit, take effect in order at commit, and none of them takes effect if the transaction is aborted. If one of them is refused, those queued before it stay and those after it are not applied. An uncommitted in-place transaction that ends applies its edits.",
 ["histories", "fault_sequences"], "all generated histories of edits, commits, aborts and destructions, including edits that fail",
 "isolation is a statement about every interleaving of edits and transaction endings",
 ["include/vara/Feature/FeatureModelTransaction.h"],
 [("copy transaction", "detail::FeatureModelCopyTransactionBase"), ("modify transaction", "detail::FeatureModelModifyTransactionBase")],
 ["FeatureModelCopyTransaction", "FeatureModelModifyTransaction"])

prop("C11", "A cloned model is equal and independent",
 "For every feature model, its clone is equal to it in every observable respect: metadata, features with all their attributes, tree, groups with their kind and members, and all constraints with their attributes, registered with the clone's features. Original and clone share no mutable object: any later change to or destruction of one leaves the other unchanged. The clone admits the same configurations.",
 ["inputs", "histories"], "all generated models followed by arbitrary edits to either copy",
 "attribute losses and shared pointers only show on models with those attributes; tests clone three small ones",
 ["lib/Feature/FeatureModel.cpp"],
 [("deep copy", "FeatureModel::clone")],
 ["FeatureModel::clone"])

prop("C12", "Merging combines two models or refuses",
 "Merging two models with the same root gives a new model containing every feature of both: features of the first keep their properties and place, features only in the second appear under the same parent with all their properties, and shared features carry the locations of both without duplicates. Strict merging succeeds exactly if all shared features agree in kind, optionality, numeric values, parent and kind of parent node, non-strict merging exactly if their parents agree. Models with different roots are refused. Neither input is modified, a refused merge returns nothing, and merging a model with itself gives an equal model.",
 ["inputs"], "all generated pairs of models derived from a common ancestor by random edits",
 "the result depends on every pair of shared features; tests merge six fixed pairs",
 ["lib/Feature/FeatureModelTransaction.cpp"],
 [("recursive merge", "mergeFeatureModels/mergeSubtree"), ("compatibility", "compareProperties"), ("feature copy", "featureCopy")],
 ["mergeFeatureModels"])

prop("C13", "Removing features removes exactly what was asked",
 "Removing a set of features deletes every requested feature that can be deleted and nothing else: without recursion those that are or become leaves once the other requested features are gone, with recursion each requested feature together with its whole subtree, regardless of the order in which they are listed. The features that could not be removed are returned. Every other feature keeps its properties, parent and place.",
 ["inputs"], "all generated models, request lists, orders, and both modes",
 "the outcome must not depend on list order or memory layout; tests use one tree and a few lists",
 ["lib/Feature/FeatureModelTransaction.cpp", "include/vara/Feature/FeatureModelTransaction.h"],
 [("batch removal", "removeFeatures/canBeDeletedRecursively"), ("single removal", "detail::RemoveFeatureFromModel")],
 ["removeFeatures", "removeFeature"])

prop("C14", "Features are visited in one well-defined depth-first order",
 "Iterating a model visits every feature exactly once, parents before children and siblings by name ignoring case (exact name between names differing in case only), independent of the order of construction; the unordered view visits the same set. Iterators of one model are equal exactly if they are at the same feature. Comparing features of one model is a strict total order equal to that visiting order, and an ordered feature list keeps its elements in that order after any sequence of insertions and removals. Features are equal, and hash equally, if their names agree ignoring case. Looking up a name finds the feature with exactly that name or nothing. Parents, children, groups and edges read from the nodes agree with the tree.",
 ["inputs", "histories"], "all generated trees and insertion/removal sequences",
 "order properties quantify over all pairs and triples of features in all trees",
 ["include/vara/Feature/FeatureModel.h", "lib/Feature/Feature.cpp", "lib/Feature/OrderedFeatureVector.cpp", "include/vara/Feature/FeatureTreeNode.h"],
 [("depth-first iterator", "FeatureModel::DFSIterator"), ("comparison", "Feature::operator<"), ("ordered vector", "deprecated::OrderedFeatureVector")],
 ["FeatureModel::features", "FeatureModel::unorderedFeatures", "Feature::operator<", "OrderedFeatureVector", "FeatureModel::getFeature"])

prop("C15", "The SXFM reader loads exactly what the document says",
 "For every SXFM document the loaded model has the described name, features in the described tree, mandatory and optional flags, alternative groups for cardinality [1,1] and or groups for [1,*], and one boolean constraint per clause with identifiers replaced by feature names, for any indentation string and with or without identifiers. Unsupported cardinalities, bad indentation, several roots and unknown option types are rejected. No input crashes the reader.",
 ["inputs"], "all generated SXFM trees and constraint sections, plus arbitrary mutations",
 "tests load about fifteen fixed files",
 ["lib/Feature/FeatureModelParser.cpp", "lib/Feature/SxfmConstants.h"],
 [("feature tree", "FeatureModelSxfmParser::parseFeatureTree"), ("clauses", "FeatureModelSxfmParser::parseConstraints"), ("cardinality", "FeatureModelSxfmParser::extractCardinality")],
 ["FeatureModelSxfmParser::buildFeatureModel"])

prop("C16", "Configurations behave as a typed string map and survive JSON",
 "A configuration is a map from option names to values under any sequence of set and get operations, and iteration visits every stored option once. Writing it as JSON and reading it back gives the same map for all valid UTF-8 names and values, and malformed or non-object JSON is rejected without a crash. A value reads as a boolean if it spells true or false, as an integer if it spells a 64-bit number (decimal, or with the prefix of another base), and otherwise as its text.",
 ["inputs", "histories"], "all generated maps, values, and byte strings",
 "tests cover three options; escaping, number limits and malformed text are unbounded",
 ["include/vara/Configuration/Configuration.h", "lib/Configuration/Configuration.cpp"],
 [("JSON", "Configuration::createConfigurationFromString/dumpToString"), ("typing", "ConfigurationOption")],
 ["Configuration", "ConfigurationOption"])

prop("C17", "Step functions parse, print and step as written",
 "Text combining the variable and one number by addition, multiplication or exponentiation, in either order and with any whitespace, parses to the function that computes it, and any other text, as well as a number beyond the range of double, is rejected without a crash. Evaluating it gives that arithmetic result for every value. Printing a step function and parsing the text gives a function with the same results.",
 ["inputs"], "all numbers, operators, operand orders, whitespace, and arbitrary strings",
 "floating-point formatting and rounding only go wrong for particular numbers",
 ["include/vara/Feature/StepFunction.h", "include/vara/Feature/StepFunctionParser.h"],
 [("lexing and parsing", "StepFunctionLexer/StepFunctionParser"), ("evaluation", "StepFunction::next"), ("printing", "StepFunction::toString")],
 ["StepFunctionParser::buildStepFunction", "StepFunction::next", "StepFunction::toString"])

prop("C18", "Source ranges and locations are values with exact equality",
 "Two source ranges are equal exactly if path, start, end, category, member offset and revision range are all equal; source positions are ordered by line, then column. A member offset is accepted exactly if it names a member after a scope separator, its class path, nesting depth and member name are the written parts, and printing and re-reading gives an equal offset. A feature's location list behaves like a list under any sequence of adding, updating and removing locations.",
 ["inputs", "histories"], "all generated ranges, offset strings and edit sequences",
 "equality and ordering laws quantify over all pairs; tests compare a few",
 ["include/vara/Feature/FeatureSourceRange.h", "include/vara/Feature/Feature.h"],
 [("equality", "FeatureSourceRange::operator=="), ("member offsets", "FeatureMemberOffset::createFeatureMemberOffset"), ("location list", "Feature::addLocation/updateLocation/removeLocation")],
 ["FeatureSourceRange", "Feature::getLocations"])

prop("C19", "The DOT export is well formed and complete",
 "For every feature model the DOT export is syntactically valid with valid HTML-like labels, has exactly one node per feature and group and exactly one edge per parent-child pair, marks optional and mandatory features differently and names the kind of each group. Each feature's label contains its name, output string, the constraints it takes part in and its locations, whatever characters they contain.",
 ["inputs"], "all generated models, including names and strings with markup characters",
 "the export is untested; well-formedness depends on arbitrary text",
 ["include/vara/Feature/FeatureModel.h", "include/vara/Feature/Constraint.h"],
 [("graph writer", "llvm::GraphWriter<FeatureModel *>")],
 ["llvm::WriteGraph on a FeatureModel"])

prop("C20", "Written sample sets contain every configuration exactly",
 "The sample-set text written for a list of configurations parses as YAML and holds one entry per configuration, under the number of the configuration, that lists, in the order of the model, the selected options of that configuration with their flags and numeric values and nothing else.",
 ["inputs"], "all generated models and configuration lists",
 "the writer is untested; formatting depends on arbitrary option names and values",
 ["lib/Sampling/SampleSetWriter.cpp", "include/vara/Sampling/SampleSetWriter.h"],
 [("YAML writer", "SampleSetWriter::writeConfigurations")],
 ["SampleSetWriter::writeConfigurations"])

prop("C21", "The Python bindings show the same model as the C++ library",
 "Every model built through the Python builder, loaded from XML or read through Python accessors has exactly the features, flags, values, tree, locations and constraints that were requested or written, and writing it from Python gives the text the C++ writer gives. Errors surface as Python values or exceptions, never as a crash, and whatever was obtained from a model stays usable when every other reference to the model is dropped.",
 ["inputs", "histories"], "all generated models and documents driven through the bindings",
 "the Python tests check fixed objects",
 ["bindings/python/vara-feature"],
 [("binding modules", "bindings/python/vara-feature/pybind_*.cpp")],
 ["vara_feature Python module"])

prop("C22", "The model builder is order-independent and all-or-nothing",
 "For every set of feature, edge, group and constraint declarations, the builder produces a model with exactly those features, edges, groups and constraints, independent of the order in which features and edges of different features are declared. It returns no model if a name is declared twice, an edge or constraint refers to an undeclared feature, a feature would be its own ancestor, or a feature gets two groups. Of several edges for one feature the last one counts; a feature without an edge becomes a child of the root.",
 ["inputs", "histories"], "all generated declaration sets and permutations, valid and invalid",
 "order independence quantifies over all permutations",
 ["include/vara/Feature/FeatureModelBuilder.h", "lib/Feature/FeatureModelBuilder.cpp", "include/vara/Feature/FeatureModelTransaction.h"],
 [("builder", "FeatureModelBuilder::buildFeatureModel")],
 ["FeatureModelBuilder"])

prop("C23", "The incremental solver interface reports errors and stays sound",
 "For any sequence of additions to a solver, an option is accepted exactly if its parent is already present and its name is new, and refused otherwise with the matching error code and without changing the set of solutions. At every point the satisfiability query and successive solutions match exactly what has been added so far. Once enumeration has started the satisfiability query refuses to answer.",
 ["histories"], "all generated sequences of solver calls, valid and invalid",
 "state-machine behaviour over call sequences; tests perform fixed ones",
 ["lib/Solver/Z3Solver.cpp", "include/vara/Solver/Z3Solver.h", "include/vara/Solver/Solver.h"],
 [("incremental interface", "Z3Solver::addFeature/addConstraint/addMixedConstraint/addRelationship"), ("state", "Z3Solver::hasValidConfigurations/getCurrentConfiguration/getNextConfiguration")],
 ["Z3Solver"])

prop("C24", "fm-viewer shows the model of the file it is given",
 "For every model file, fm-viewer -verify exits successfully exactly if the file is a valid model, without writing or displaying anything. Otherwise it refuses unreadable files with a message and a nonzero exit code, and for a readable one its textual dump lists every feature of the model, and the file named by -o, or else the graph handed to the viewer, is the DOT graph of the model. If the graph cannot be written, the exit code is nonzero.",
 ["inputs", "faults"], "all generated model files, broken files and output paths that cannot be written",
 "the tool has no tests",
 ["tools/fm-viewer/FeatureModelViewer.cpp", "include/vara/Feature/FeatureModel.h"],
 [("tool", "tools/fm-viewer/FeatureModelViewer.cpp main")],
 ["fm-viewer"])

prop("C25", "config-generator writes exactly the configurations it was asked for",
 "For every valid model file, config-generator writes a sample set with exactly one entry per valid configuration of the model (type All) or per row of the given semicolon-separated table (type sample), each entry holding exactly the flags of the selected options and the values of the numeric ones; columns that name no feature are ignored. For an unusable model file, a missing table, sampling, which is not implemented, or an output that cannot be written, it reports an error with a nonzero exit code and changes no file.",
 ["inputs", "faults"], "all generated model files, tables, option combinations and output paths",
 "neither the tool nor the table reader is built or tested here",
 ["tools/config-generator/ConfigurationGenerator.cpp", "lib/Sampling/SampleSetParser.cpp", "lib/Sampling/SampleSetWriter.cpp"],
 [("tool", "tools/config-generator/ConfigurationGenerator.cpp main"), ("table", "SampleSetParser::readConfigurations")],
 ["config-generator", "SampleSetParser"])

prop("C26", "Consistency rules accept exactly the models they describe",
 "For every feature model, consistent or not, each consistency rule and each combination of rules accepts the model exactly if it has one root, every other feature has a feature above it, and every other feature is listed among the children of its parent, whichever of these were asked for and in whichever order. Asking changes nothing and never crashes. A modification transaction commits exactly if the model satisfies all rules, and otherwise reports the inconsistency.",
 ["inputs", "histories"], "all generated models after any number of low-level edits",
 "tests check the rules on a handful of fixed models; the rules guard every commit",
 ["include/vara/Feature/FeatureModel.h", "include/vara/Feature/FeatureModelTransaction.h"],
 [("rules", "ExactlyOneRootNode, EveryFeatureRequiresParent, CheckFeatureParentChildRelationShip"), ("checker", "FeatureModelConsistencyChecker::isFeatureModelValid"), ("commit", "FeatureModelModifyTransactionBase::commitImpl")],
 ["FeatureModelConsistencyChecker", "FeatureModelModifyTransaction::commit"])

prop("C27", "A result holds either its value or its error and hands out exactly that",
 "A result built from a value, including false, zero, the empty string and null, is a success with exactly this value; one built from an error is a failure with exactly this error. Any sequence of copies, moves, assignments, queries and extractions keeps it so, and leaves the source of a copy unchanged. Printing a result shows its value or its error, and every error code has its own message.",
 ["inputs", "histories"], "all sequences of operations over results of various value and error types",
 "tests cover a few fixed constructions; every fallible call of the library reports through this type",
 ["include/vara/Utils/Result.h", "include/vara/Feature/Error.h", "include/vara/Solver/Error.h"],
 [("result", "Result, Result<ErrorCode, void>, Ok, Error"), ("messages", "operator<< of Error<FTErrorCode>, Error<SolverErrorCode>")],
 ["vara::Result", "vara::Ok", "vara::Error"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
