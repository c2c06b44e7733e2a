#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed if it has harnesses."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, C, F, P, S = "inputs", "histories", "configurations", "fault_sequences", "programs", "schedules"


def m(name, where):
    return {"name": name, "where": where}


PROPS = [
    dict(id="C01", title="Trace files are read exactly as written",
         statement="Reading a trace file gives one test for each line that is neither blank nor a comment, in the order of the lines, whose optional name, prefix events and forbidden last event have exactly the channel, direction and value that are written, whatever blanks surround the parts and whichever line ending is used. A file in which any line is malformed (a cell without a direction, an unknown direction) is rejected as a whole, and gives no tests.",
         over=[I], text="all trace files of bounded numbers of lines and cells, over all names, values and characters of bounded length",
         why="The tests read one three-line file; there are infinitely many names, values, layouts and malformations.",
         files=["internal/trace/read.go", "internal/testlang/event.go", "internal/testlang/channel/channel.go"],
         mech=[m("trace.Read", "internal/trace/read.go:14"), m("Channel.UnmarshalTextWithRemainder", "internal/testlang/channel/channel.go:112")],
         note="bounded: lines, cells and lengths of names and values"),
    dict(id="C02", title="Events survive being written as text and read back",
         statement="Writing any event (a channel name without dots or outer blanks, any direction, and an integer, an enumeration constant, or no value) as text gives NAME.DIRECTION or NAME.DIRECTION.VALUE, and reading that text gives an equal event. Two events are equal, and have the same text, exactly if their channel names, directions and values are the same.",
         over=[I], text="all events and pairs of events with names and constants of bounded length and integers of 64 bits",
         why="Tests try three events each way; equality of pairs, absent values and the range of integers are not tried.",
         files=["internal/testlang/event.go", "internal/testlang/channel/channel.go", "internal/testlang/value/value.go"],
         mech=[m("Event.MarshalText, UnmarshalText, Equals", "internal/testlang/event.go:33"), m("Value.MarshalText, UnmarshalText", "internal/testlang/value/value.go:62")],
         note="bounded: lengths of names and values, digits of integers"),
    dict(id="C03", title="Test suites and state machine suites survive JSON",
         statement="Writing a test suite or a state machine suite as JSON and reading it back gives a suite with the same tests, nodes, states, transitions, verdicts, test sets and types, in the same order where there is one. So each tool of the pipeline sees exactly what the tool before it had.",
         over=[I, H], text="all suites of bounded size, over names, events, values, outcomes and shapes",
         why="No test writes or reads a suite; the shapes and contents are unbounded.",
         files=["internal/testlang/testlang.go", "internal/stm/suite.go", "internal/stm/verdict/verdict.go", "internal/structure/set.go", "internal/serial/serial.go"],
         mech=[m("testlang.ReadSuite, Suite.Write", "internal/testlang/testlang.go:15"), m("stm.ReadSuite, Suite.Write", "internal/stm/suite.go:17"), m("Verdict, Set JSON", "internal/stm/verdict/verdict.go:98")],
         note="bounded: number and depth of nodes, lengths of names"),
    dict(id="C04", title="Traces expand to the test trees they mean, and collapse back",
         statement="Expanding a forbidden trace gives a linear test tree: a root, an inconclusive node for each prefix event in order, a passing node for the forbidden event, and a failing node, all belonging to exactly the named test. Collapsing that tree gives back the same prefix and forbidden event, a suite expands and collapses name by name, and collapsing a tree that branches, is ill-formed or does not end in a failure after a passing node is an error.",
         over=[I], text="all traces and trees of bounded length over all events",
         why="Tests try two traces; the fuzz target only runs its seeds.",
         files=["internal/trace/expand.go", "internal/trace/collapse.go", "internal/testlang/node.go"],
         mech=[m("Forbidden.Expand, ExpandAll", "internal/trace/expand.go:9"), m("Collapse, CollapseAll", "internal/trace/collapse.go:12")],
         note="bounded: length of traces, number of nodes"),
    dict(id="C05", title="Naming tests loses none and makes every name unique",
         statement="Naming a list of traces gives every trace exactly one name and loses or changes none of them, whatever names, repeated or clashing with synthesised ones, they came with. The first trace with a given name (other than 'test') keeps it unless an earlier trace's synthesised name took it, later ones with the same name get it with the lowest free number appended, and traces without a name get test0, test1 and so on.",
         over=[I], text="all lists of traces of bounded length over all (clashing) names",
         why="The test names one list of six traces; clashes between given and synthesised names are not tried.",
         files=["internal/trace/trace.go"],
         mech=[m("Name", "internal/trace/trace.go:77")],
         note="bounded: number of traces and lengths of names"),
    dict(id="C06", title="Validation accepts exactly the well-formed test trees",
         statement="Validation accepts a test tree exactly if its root has no event and no outcome, every other node has a defined outcome, every passing or inconclusive node has an event and at least one continuation (a passing node exactly one), every failing node has neither event nor continuations, and every node belongs to at least one test. One ill-formed node anywhere in a suite makes the suite, and the tool that reads it, fail.",
         over=[I], text="all trees of bounded depth and branching with any outcomes, events and test lists at any node",
         why="Tests validate five root nodes; no test validates other nodes or whole trees.",
         files=["internal/validate/node.go", "internal/validate/validate.go", "internal/validate/suite.go", "internal/testlang/walk.go"],
         mech=[m("Full", "internal/validate/validate.go:24"), m("Root, Node", "internal/validate/node.go:10"), m("Walk", "internal/testlang/walk.go:6")],
         note="bounded: number and branching of nodes"),
    dict(id="C07", title="State machines have the structure of the test trees they come from",
         statement="The state machine built of a test tree has exactly one state per node that does not fail, the first of which is the root's and is called 'initial'; identifiers of states are unique, and those that nodes came with are kept. The transitions of each state lead to exactly the states of its node's continuations that do not fail, grouped by channel and direction in order, each with its continuation's value; each state reports for exactly the tests of its continuations the continuations' outcomes; and the machine's set of tests is the union of all of those.",
         over=[I], text="all well-formed test trees of bounded depth and branching, with or without given identifiers (distinct, and none of them 'initial')",
         why="One test builds one machine of a trace without prefix.",
         files=["internal/stm/builder.go", "internal/stm/state.go", "internal/stm/transition/set.go"],
         mech=[m("Builder.Build", "internal/stm/builder.go:72"), m("State.AddOutgoingNode", "internal/stm/state.go:35"), m("AddToSets", "internal/stm/transition/set.go:35")],
         note="bounded: number and branching of nodes"),
    dict(id="C08", title="Channel types are inferred from all values, in any order",
         statement="The type inferred for a channel is the least one that covers every value it carries in any test: natural numbers if no integer is negative, integers otherwise, enumeration for constants, empty if it never carries a value. It does not depend on the order of tests or events, and there is an error exactly if one channel name carries values of different kinds (integer, constant, none), be it in one test or in several.",
         over=[I, S], text="all suites of bounded numbers of tests and events over all kinds of values, and all orders of iteration",
         why="No test infers or unifies types; the order in which tests are visited is random.",
         files=["internal/stm/builder.go", "internal/testlang/rstype/unify.go", "internal/testlang/rstype/arithmos.go", "internal/testlang/rstype/rstype.go", "internal/testlang/value/int.go"],
         mech=[m("unifyTypes, inferEventType", "internal/stm/builder.go:36"), m("Unify", "internal/testlang/rstype/unify.go:6")],
         note="bounded: number of tests and events"),
    dict(id="C09", title="Types read, print and unify consistently",
         statement="Every type (empty, nat, int, real, enum) is recognised by exactly its own predicate, has its own name, and reading that name, in any case, gives the type back; any other text is an error. Unification is idempotent, commutative and associative with an absent type as its identity, gives the wider of two arithmetic types (nat below int below real), and fails exactly for types of different kinds.",
         over=[I], text="all triples of types, and all texts of bounded length",
         why="No test touches unification or the text of types.",
         files=["internal/testlang/rstype/rstype.go", "internal/testlang/rstype/unify.go", "internal/testlang/rstype/arithmos.go"],
         mech=[m("Unify", "internal/testlang/rstype/unify.go:6"), m("RsType.MarshalText, UnmarshalText", "internal/testlang/rstype/rstype.go:50")],
         note="bounded: length of texts"),
    dict(id="C10", title="A forbidden trace's machine fails exactly when the trace happens",
         statement="Running the pipeline's tools on a trace file gives, for each trace, a state machine that, fed any sequence of events, reports its test inconclusive while a proper part of the prefix has happened, passing exactly when the whole prefix has happened and nothing else, and failing exactly when the prefix and then the forbidden event have happened. Any other event has no transition, and no verdict is ever reported for another test.",
         over=[I, H], text="all trace files of bounded numbers of traces and events, and all sequences of events fed to the machines",
         why="No test runs two tools together, or walks a state machine.",
         files=["cmd/rtcg-read-traces/main.go", "cmd/rtcg-make-stms/main.go", "internal/trace/expand.go", "internal/stm/builder.go", "internal/stm/state.go"],
         mech=[m("run", "cmd/rtcg-make-stms/main.go:45"), m("Builder.Build", "internal/stm/builder.go:72")],
         note="bounded: traces, events, and lengths of sequences"),
    dict(id="C11", title="Grouping transitions by channel neither loses nor mixes any",
         statement="For any state machine, the aggregate of its transitions has one set per channel and direction, in order of first use, and each set maps each state to exactly that state's transitions on that channel, in order. What the code templates get (all channels, inputs apart from outputs and calls, merged inputs, whether the first state has an input) is exactly that aggregate, and computing it leaves the machine, and the result of computing it again, unchanged.",
         over=[I, H], text="all state machines of bounded numbers of states, sets and transitions",
         why="One test adds four fixed transitions; nothing tests what templates get, or that the machine is left alone.",
         files=["internal/stm/stm.go", "internal/stm/transition/set.go", "internal/gen/gencommon/context.go"],
         mech=[m("Stm.TransitionSets", "internal/stm/stm.go:45"), m("AddToAggregateSets", "internal/stm/transition/set.go:83"), m("makeTransitions", "internal/gen/gencommon/context.go:68")],
         note="bounded: states, channels, transitions"),
    dict(id="C12", title="Generation makes exactly the files that were configured, for every test",
         statement="For every configuration and suite, generation makes, for each configured C++ variant, the driver, include directory and (with Catkin) manifest and CMake file of every test, the conversion header, the common code, a copy of the user's conversion code exactly if a channel of the suite is overridden, and a Makefile exactly if one is configured; and nothing else. Build files name exactly the sources that exist. The Makefile has a rule for every test, every driver and the conversion header include the configured headers in order and in the right kind of brackets, and the conversion header defines every channel's type and conversions, overridden or not.",
         over=[C, I], text="all combinations of variants, build files, overrides, includes and tests within bounds",
         why="One test checks a list of directories; no test generates a file.",
         files=["internal/gen/gen.go", "internal/gen/cpp/cpp.go", "internal/gen/cpp/copy.go", "internal/gen/makefile/makefile.go", "internal/gen/catkin/catkin.go", "internal/gen/templating/set.go"],
         mech=[m("OnSuite.Generate", "internal/gen/gen.go:147"), m("templates", "internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl")],
         note="bounded: numbers of tests, channels, includes; names of bounded length"),
    dict(id="C13", title="Configuration is read as written, and overrides reach the right channels",
         statement="Loading a configuration gives the variants, headers (in order, system or local), channel types and build-file options that the XML has, with the configuration's own directory as the input directory unless it names one; an unreadable, malformed or unknown configuration is an error. A channel's type is overridden exactly if the configuration has a channel of its name with a type (the last one counts), its inferred type is kept beside the override, and conversion code is expected exactly if some channel of the suite is overridden.",
         over=[C, I], text="all configurations of bounded numbers of variants, headers and channels, and all suites' types",
         why="The test loads three fixed files.",
         files=["internal/gen/config/config.go", "internal/gen/config/cpp/cpp.go", "internal/gen/config/cpp/context.go", "internal/gen/config/cpp/variant_enum.go"],
         mech=[m("Load", "internal/gen/config/config.go:21"), m("Config.Process", "internal/gen/config/cpp/context.go:22")],
         note="bounded: numbers and lengths of entries"),
    dict(id="C14", title="No failure to read or write is reported as success; outputs stay put",
         statement="If any file cannot be opened, read, created or written, a directory cannot be made, or standard output cannot be written, the tool exits with a non-zero status and says why on standard error. Generation writes, and -clean removes, nothing outside the output directory, whatever the tests are called; -clean of the current directory is refused; and without -clean nothing that generation does not make is touched.",
         over=[F, I], text="a failure of every single file operation of the pipeline, and all bounded names of tests and output directories",
         why="No test runs a tool, makes an operation fail, or looks at what else was written.",
         files=["cmd/rtcg-gen/main.go", "internal/gen/gen.go", "internal/gen/cpp/copy.go", "internal/gen/templating/templating.go", "internal/gen/catkin/catkin.go", "internal/serial/serial.go"],
         mech=[m("maybeClean", "cmd/rtcg-gen/main.go:86"), m("CreateFile", "internal/gen/templating/templating.go:12"), m("writeFile", "internal/gen/cpp/copy.go:61")],
         note="bounded: the runs in which failures are put; the operating system is a stand-in"),
    dict(id="C15", title="The tools follow their command lines",
         statement="Each tool reads the file that its last, optional argument names, or standard input if there is none or it is '-', and writes its result to standard output (rtcg-gen: to the output directory, by default 'out'); with too few or too many arguments it exits with a non-zero status, writes no result, and shows how to use it. Input that is malformed at any stage gives a non-zero status, a message, and no result on standard output, and never makes a tool crash.",
         over=[I, C], text="all argument lists of bounded length, with files or standard input, well-formed or not",
         why="No test runs a tool or parses arguments.",
         files=["internal/cli/cli.go", "cmd/rtcg-read-traces/main.go", "cmd/rtcg-make-stms/main.go", "cmd/rtcg-gen/main.go"],
         mech=[m("ParseFileArgument, OpenFileOrStdin, HandleError", "internal/cli/cli.go:18")],
         note="bounded: numbers and lengths of arguments; the operating system is a stand-in"),
    dict(id="C16", title="Package manifests are filled in per test, without leaks",
         statement="The Catkin manifest of each test has the configured fields, defaults for those that are absent, and the test's own name wherever a field that is expanded has the placeholder, and reads back as such; no test's name shows in another test's files, and generating for one test does not change the configuration that is used for the next. The CMake file's project is the manifest's name, with the manifest's dependencies in order.",
         over=[C, I, S], text="all bounded fields with or without placeholders, all bounded names, and all orders of tests",
         why="Tests fill and expand four fixed packages, and never more than one test's.",
         files=["internal/gen/config/catkin/package.go", "internal/gen/catkin/catkin.go", "internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl"],
         mech=[m("Package.Autofill, Expand", "internal/gen/config/catkin/package.go:54"), m("generateTest", "internal/gen/catkin/catkin.go:82")],
         note="bounded: lengths of fields and names"),
    dict(id="C17", title="Identifiers of generated code follow the names they come from",
         statement="Topic names are names in lower case with an underscore between a lower-case and an upper-case letter and nothing else changed; upper-casing a first letter changes nothing else; and both are idempotent. The identifiers made for callbacks, types, conversions, states and outcomes are the documented functions of the name, and names that differ in more than case never get the same identifier.",
         over=[I], text="all names of bounded length",
         why="Tests convert a dozen names.",
         files=["internal/strmanip/strmanip.go", "internal/gen/cpp/func.go"],
         mech=[m("ToLowerUnderscored, UpcaseFirst", "internal/strmanip/strmanip.go:10"), m("Funcs", "internal/gen/cpp/func.go:14")],
         note="bounded: lengths of names"),
    dict(id="C18", title="Values are what their text says, with the type that goes with it",
         statement="Text that is a decimal integer of 64 bits is that integer, blank text is the absent value, and any other text, integers beyond 64 bits included, is the enumeration constant of that text without outer blanks. Integers have the type of naturals exactly if they are not negative, values are equal exactly if they are of the same kind with the same content, and generated code gets integers as digits and constants in quotes.",
         over=[I], text="all texts of bounded length, all integers of 64 bits",
         why="Tests try six texts and three integers.",
         files=["internal/testlang/value/value.go", "internal/testlang/value/int.go", "internal/testlang/value/enum.go", "internal/gen/cpp/func.go"],
         mech=[m("Value.UnmarshalText, Equals, Type", "internal/testlang/value/value.go:93"), m("cpp.Value", "internal/gen/cpp/func.go:111")],
         note="bounded: lengths of texts"),
    dict(id="C19", title="Factorisation finds exactly the failures that follow a trace",
         statement="For any set of forbidden traces and any trace, the failures found after the trace are exactly the tests whose prefix equals it, each with its own forbidden event. The spine nodes made of them are an inconclusive node of the trace's last event for each failure that is an input, holding just that failure, and one for all other failures, in which each failure is a passing node with its event and test followed by a failing one.",
         over=[I, S], text="all bounded sets of traces, all traces, and all orders of iteration",
         why="The package has no tests.",
         files=["internal/factorise/factorise.go", "internal/trace/trace.go"],
         mech=[m("SpineNodes, Failures", "internal/factorise/factorise.go:14"), m("Trace.Equals, IsPrefixOf", "internal/trace/trace.go:34")],
         note="bounded: numbers of traces and events"),
    dict(id="C20", title="Enumerations print and parse as inverses, and reject everything else",
         statement="Every direction, outcome, C++ variant, type kind and arithmetic domain has its own documented name, and reading that name in any mixture of cases gives it back. Any other text is an error that leaves the target unchanged.",
         over=[I], text="all members and all texts of bounded length",
         why="Tests cover directions' names and outcomes' printing only.",
         files=["internal/testlang/channel/kind_enum.go", "internal/testlang/outcome_enum.go", "internal/gen/config/cpp/variant_enum.go", "internal/testlang/rstype/kind_enum.go", "internal/testlang/rstype/arithmos_enum.go"],
         mech=[m("ParseKind", "internal/testlang/channel/kind_enum.go:50"), m("ParseOutcome", "internal/testlang/outcome_enum.go:60"), m("ParseVariant", "internal/gen/config/cpp/variant_enum.go:45")],
         note="bounded: lengths of texts"),
    dict(id="C21", title="Verdicts and sets keep exactly what was put into them",
         statement="After any sequence of additions a verdict maps each test to the outcome added for it last, its list of tests is sorted and complete, and its inconclusive, passing and failing sets partition the tests by outcome, with the yes/no questions agreeing with them. A set has exactly the members added, once each, through any sequence of additions and through JSON; a stack gives back what was pushed, last first.",
         over=[H, S], text="all bounded sequences of operations over all names and outcomes, and all orders of iteration",
         why="Neither verdicts nor sets have tests.",
         files=["internal/stm/verdict/verdict.go", "internal/structure/set.go", "internal/structure/stack.go", "internal/structure/map.go"],
         mech=[m("Verdict", "internal/stm/verdict/verdict.go:17"), m("Set", "internal/structure/set.go:10"), m("Stack", "internal/structure/stack.go:4")],
         note="bounded: lengths of sequences and names"),
    dict(id="C22", title="Walking a test tree visits every node once, in pre-order",
         statement="Walking a tree calls the function on every node exactly once, each node before its continuations and those in order, up to the first error, which it returns. Marking a tree gives every node exactly the given tests.",
         over=[I, F], text="all trees of bounded size, and an error at any node",
         why="No test walks a tree.",
         files=["internal/testlang/walk.go", "internal/structure/stack.go"],
         mech=[m("Walk, MarkAll", "internal/testlang/walk.go:6")],
         note="bounded: number of nodes"),
    dict(id="C24", title="Generated drivers reach the verdict that the trace deserves",
         statement="A generated C++ driver (animated or ROS), fed any sequence of outputs, input acknowledgements and timeouts, reports failure and exits with 1 exactly if the prefix of its trace and then the forbidden event happened; while the prefix is incomplete it reports the test as inconclusive (before it starts, as unset), and as passed once it is complete. Any other output takes it off-script, a time-out ends it, an unexpected acknowledgement is a bug (exit status 2), and a driver that has ended never changes its status or verdict again.",
         over=[P, H, I], text="generated programs of a bounded family of traces, and all bounded sequences of events with any values",
         why="No test generates, compiles or runs a driver.",
         files=["internal/gen/cpp/embed/templates/base/stm.cpp.tmpl", "internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl", "internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl", "internal/gen/cpp/embed/prelude/rtcg.cpp"],
         mech=[m("state machine template", "internal/gen/cpp/embed/templates/base/stm.cpp.tmpl:1"), m("status and exit code", "internal/gen/cpp/embed/prelude/rtcg.cpp:67")],
         note="bounded: traces, numbers of events; the C++ library is a stand-in"),
    dict(id="C25", title="The same input always gives the same output",
         statement="For trace files whose tests each stem from one trace, the output of every tool is the same in every run but for the date of generation, whatever order the runtime visits maps in. In particular numbering of states, order of transitions, inferred types and the contents of every generated file do not depend on it.",
         over=[S, I], text="all orders of map iteration, for bounded suites and configurations",
         why="A test sees one order per run, and none compares runs.",
         files=["internal/stm/builder.go", "internal/stm/suite.go", "internal/gen/gencommon/context.go", "internal/gen/cpp/cpp.go", "internal/structure/map.go"],
         mech=[m("BuildMany", "internal/stm/builder.go:57"), m("populateFilters", "internal/gen/gencommon/context.go:53")],
         note="bounded: sizes of suites; maps of up to a few entries in every order, larger ones forwards and backwards"),
]

TECH = "symbolic execution of the real Go code's SSA with an SMT solver (z3), all paths within bounds"
LEVEL_NOTE = ("Every assertion is decided by z3 for all symbolic inputs on every path within the stated bounds (%s). Trusts go/ssa, the engine in gosym "
              "(sampled paths of every run are replayed against the compiled code and compared), its stand-ins for the operating system and runtime, and z3.")
SPECIAL = {"C24": "symbolic execution (z3) of the generated C++ drivers in LLVM IR, made from the current templates by symbolically executing the tools' Go SSA"}

NA = {}

os.makedirs(os.path.join(here, "harness"), exist_ok=True)
checks, na = [], []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=p["mech"])), ensure_ascii=False) + "\n")
        if os.path.isdir(os.path.join(here, "harness", p["id"])):
            checks.append(dict(property=p["id"], quick_cmd="./run.sh check " + p["id"], thorough_cmd="./run.sh check %s -thorough" % p["id"],
                               technique=SPECIAL.get(p["id"], TECH), level="model_checking", level_note=LEVEL_NOTE % p["note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check yet: its harness is being built")))

with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./run.sh setup",
                   checks=checks, not_applicable=na,
                   notes="No hooks in /repo: harnesses, and stand-ins for the os package, go in through overlays."), f, indent=1, ensure_ascii=False)
    f.write("\n")
