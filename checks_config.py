"""Which harness decides which property, and the repository sources it builds."""

import glob
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


def sources(directory):
    return sorted(os.path.relpath(p, REPO) for p in glob.glob(f"{REPO}/lib/{directory}/*.cpp"))


FEATURE = sources("Feature")
CONF = sources("Configuration")
SOLVER = sources("Solver")

PYTHON = sorted(os.path.relpath(p, REPO)
                for p in glob.glob(f"{REPO}/bindings/python/vara-feature/*.cpp"))

LIBSETS = {
    "feature": FEATURE,
    "conf": FEATURE + CONF,
    "solver": FEATURE + CONF + SOLVER,
    # the others need libraries that are not installed here
    "sampling": FEATURE + CONF + [s for s in sources("Sampling") if not s.endswith(("SampleSetParser.cpp", "SamplingMethods.cpp"))],
    "generator": FEATURE + CONF + SOLVER + [s for s in sources("Sampling") if not s.endswith("SamplingMethods.cpp")],
}

CHECKS = {
    "C04": dict(
        src="c04_constraint_parser.cpp", libs="feature",
        rule="a case is non-trivial if its text holds at least two operators (rendered "
             "expressions) or if lexing yields at least three tokens (token soups, mutated "
             "texts), or the literal is outside 0..9; distinct by text",
        assumptions=["texts of at most about 4 KB and 300 nested operators: the parser is "
                     "recursive, its depth limit is the stack"]),
    "C05": dict(
        src="c05_constraint_builder.cpp", libs="feature",
        rule="a case is non-trivial if the call sequence holds at least two operator calls; "
             "distinct by call sequence"),
    "C06": dict(
        src="c06_constraint_copy.cpp", libs="feature",
        rule="a case is non-trivial if the constraint has at least two operators; distinct by "
             "constraint"),
    "C16": dict(
        src="c16_configuration.cpp", libs="conf",
        rule="an option value, a history with at least two sets, a configuration with at least "
             "two options, or any JSON document; distinct by content",
        assumptions=["JSON documents of at most a few hundred bytes, nesting below 200",
                     "documents with lone surrogates or a repeated name are not judged"]),
    "C17": dict(
        src="c17_step_function.cpp", libs="feature",
        rule="every written function counts; arbitrary texts count if lexing yields at least two "
             "tokens; distinct by text or parameters",
        assumptions=["results compared with a relative tolerance of 1e-12",
                     "finite constants between 2^-650 and 2^650"]),
    "C18": dict(
        src="c18_source_range.cpp", libs="feature",
        rule="every generated pair, text or history counts; distinct by content"),
    "C07": dict(
        src="c07_enumeration.cpp", libs="solver",
        rule="a model with at least four features and a group or a constraint (enumeration, "
             "constraints), any numeric domain (domains), at least four configurations "
             "(partition), at least six features (fixed); distinct by model",
        assumptions=["numeric options are outside groups and always have a value, their children count as having a selected parent",
                     "models where a division by zero or an inexact division of negative numbers "
                     "is evaluated are not judged",
                     "a range ends where its step no longer advances; a missing step is +1",
                     "brute force up to 40000 assignments and 400 configurations"]),
    "C08": dict(
        src="c08_config_queries.cpp", libs="solver",
        rule="a model with at least three features and two configurations; distinct by model and "
             "schedule",
        assumptions=["an unsatisfiable model yields none: an empty result or the error UNSAT",
                     "models as for C07, up to 120 configurations"]),
    "C23": dict(
        src="c23_solver_api.cpp", libs="solver",
        rule="a history with at least three accepted additions and a refusal or an enumeration; "
             "distinct by history",
        assumptions=["options are added before the first configuration is requested",
                     "a constraint or group over options that are not present is refused with "
                     "some error",
                     "models as for C07, up to 20000 assignments"]),
    "C09": dict(
        src="c09_transactions.cpp", libs="feature",
        rule="a history in which at least three edits succeed, or one succeeds and one is "
             "refused; distinct by model and history",
        assumptions=["at most one group per feature, groups are not nested",
                     "pointers refer to live features of the edited model (of the original for "
                     "copying transactions)",
                     "no edits after the end of a transaction (documented precondition)"]),
    "C10": dict(
        src="c10_isolation.cpp", libs="feature",
        rule="a history with at least two edits (and for in-place transactions one end); "
             "distinct by model and history",
        assumptions=["as for C09; an open copying transaction is ended before its destruction "
                     "(documented precondition)"]),
    "C11": dict(
        src="c11_clone.cpp", libs="feature",
        rule="a model with at least four features, or a history with at least two edits; "
             "distinct by model and history"),
    "C13": dict(
        src="c13_remove_features.cpp", libs="feature",
        rule="a request of at least two features, one of them with children (remove_features), or "
             "at least two removed features (repeated); distinct by model and request",
        assumptions=["a feature that is listed several times counts once; a missing name may be "
                     "returned as often as it is listed"]),
    "C12": dict(
        src="c12_merge.cpp", libs="feature",
        rule="two different models of at least three features (merge), a model of at least four "
             "(merge_self), models with different roots (merge_roots); distinct by models and mode",
        assumptions=["the same root name; different roots are refused",
                     "whether constraints and group membership of features that exist only in the "
                     "second model are taken over is left open"]),
    "C14": dict(
        src="c14_order.cpp", libs="feature",
        rule="a tree of at least five features (order), at least four steps over at least four "
             "features (ordered_vector); distinct by tree and steps",
        assumptions=["names that differ in case only are ordered by the exact name"]),
    "C22": dict(
        src="c22_builder.cpp", libs="feature",
        rule="a model of at least four features (any_order), every invalid set (invalid); "
             "distinct by declarations",
        assumptions=["of several edges for one feature the last one counts",
                     "constraints keep their declared order",
                     "children of a feature that has a group belong to the group (the builder "
                     "cannot say otherwise)"]),
    "C02": dict(
        src="c02_xml_reader.cpp", libs="feature",
        rule="a document with at least four options (load, same), every inconsistent document "
             "(refuse); distinct by text",
        assumptions=["the root option is called root or base and has no output string",
                     "numbers, step functions and member offsets are written in their documented "
                     "form"]),
    "C03": dict(
        src="c03_xml_robust.cpp", libs="feature",
        rule="every mutated document, token soups of more than ten and raw texts of more than "
             "three bytes; distinct by text",
        assumptions=["texts of a few KB, constraints nested at most 300 deep, no nested entity "
                     "definitions"]),
    "C01": dict(
        src="c01_xml_round_trip.cpp", libs="feature",
        rule="a model of at least four features (round_trip), also with a group or constraint "
             "(same_configurations), every inexpressible model (refused); distinct by model",
        assumptions=["the root is called root or base and no other feature is, as the format "
                     "reserves these names; no features of unknown kind",
                     "names in constraints and or groups are identifiers; text survives XML "
                     "trimming",
                     "mandatory siblings that all exclude each other only occur as a group, "
                     "which is how the format spells one",
                     "configurations are compared up to 6000 assignments"]),
    "C15": dict(
        src="c15_sxfm.cpp", libs="solver",
        rule="a document of at least four features (loads, with a clause: configurations), every "
             "broken document (refused), every schema-valid text (robust); distinct by text",
        assumptions=["names are identifiers that do not start with group_; clauses name a feature "
                     "by its identifier or, if that is unambiguous, by its name",
                     "exactly one blank between the type and what follows",
                     "group members are written with a bare colon, and only they are",
                     "configurations are compared up to 5000 assignments"]),
    "C19": dict(
        src="c19_dot.cpp", libs="feature",
        rule="a model of at least four features with a group, a constraint or markup characters "
             "in a text (dot), any model of at least four features (edited); distinct by model",
        assumptions=["texts hold no characters that XML forbids",
                     "graph titles with characters that DOT labels escape are only parsed"]),
    "C20": dict(
        src="c20_sample_set.cpp", libs="sampling",
        rule="at least two configurations that select at least two options together; distinct by "
             "model and configurations",
        assumptions=["binary options hold true or false, numeric options integers",
                     "output strings are valid UTF-8",
                     "entries are found by their key, the number of the configuration"]),
    "C25": dict(
        src="c25_generator.cpp", libs="generator",
        tool="tools/config-generator/ConfigurationGenerator.cpp",
        rule="at least two rows and columns (read), every run of the tool (tool); distinct by "
             "model, sample set and arguments",
        assumptions=["the csv-parser library is not installed: a stand-in with the same interface "
                     "splits the text into cells",
                     "models as for C07, up to 4000 assignments and 150 configurations",
                     "every row has a value for every column; 0 or 1 for binary options",
                     "the order of the entries is left open"]),
    "C26": dict(
        src="c26_consistency.cpp", libs="feature",
        rule="a model of at least three features that was tampered with, or one of at least five "
             "nodes; distinct by model and changes",
        assumptions=["parent pointers form no cycle",
                     "a feature without a parent is not listed by its parent"]),
    "C27": dict(
        src="c27_result.cpp", libs="feature",
        rule="a history of at least four steps with a copy, a move or an assignment; distinct by "
             "types and history",
        assumptions=["a result that was moved from or emptied is not used again",
                     "only the error is asked of an error, only the value of a success"]),
    "C24": dict(
        src="c24_viewer.cpp", libs="feature", tool="tools/fm-viewer/FeatureModelViewer.cpp",
        rule="every run of the tool counts; distinct by file content and arguments",
        assumptions=["XML files only, the format the tool names",
                     "the viewer is a stand-in that copies the graph it is given; with no viewer "
                     "the system's display program is not installed"]),
    "C21": dict(
        src="c21_python.cpp", libs="feature", python=True, opt="-O0 -I/usr/include/python3.12",
        rule="models of at least four features (build), every file (load), at least two edits "
             "(edit), every object, misuse or chain of accessors; distinct by program and file",
        assumptions=["an edit the library refuses leaves the model unchanged, as in C++",
                     "features that were removed from their model are not used again",
                     "a builder is used up by building"]),
}
