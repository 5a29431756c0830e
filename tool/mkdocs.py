#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing; both files are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GA = "Narsese/Parser/NarseseParser.cpp"
PC = "Narsese/Parser/Parser.cpp"
TH, TI, TC = "Narsese/include/Term.h", "Narsese/include/Term.inl", "Narsese/src/Term.cpp"
CC, CI, CH = "Narsese/src/Compound.cpp", "Narsese/include/Compound.inl", "Narsese/include/Compound.h"
SI, VI = "Narsese/include/Statement.inl", "Narsese/include/Variable.inl"
SH = "Narsese/include/Sentence.h"
IH, IC = "Interpreter/include/Interpreter.hpp", "Interpreter/src/Interpreter.cpp"
XC, XH = "utils/IndexVar.cpp", "utils/IndexVar.h"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, level="other", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, na=na))


SCEN = "structured abstract interpretation of the front end over all grammar shapes (trace partitioning by sentence shape)"
SCEN_NOTE = ("Every obligation is decided on an abstract state computed from the current source; words and numbers of the sentence are "
             "symbolic, so one scenario covers every spelling of its shape. Shapes are enumerated up to a bound, so deeper nestings are "
             "covered by the compositionality of the actions, not enumerated. Trusts the clang front end, the exporter and the "
             "models of the standard library, fmt and pybind11 in cnv/lib.py. Undecided obligations never alarm and are listed in the evidence.")

prop("P01", "Every construct of the language is acted upon, exactly once and in order",
     "Every construct the parser can recognise has exactly one semantic action, found by its name in every build of the program. "
     "Walking a parse invokes the action of each recognised construct once, after those of its parts, and hands it the results of its parts in the order they were written; "
     "a literal is handed its own text.",
     ["inputs", "programs", "configurations"], "all constructs of the grammar tables, all parse trees built from them, any linker layout of string literals",
     "The tests parse a few hundred fixed sentences and only time them; a construct that silently has no action yields a null result only for the inputs using it.",
     [GA, PC, "Narsese/Parser/Parser.h", "Narsese/Parser/narsese.h"],
     [("registration of actions by name", GA), ("post-order tree walk", PC)], ["the task returned for an input sentence"],
     "syntax-tree table query (emits vs registrations) plus abstract interpretation of the tree walk",
     "Exhaustive over the emitted names of the current tables; the walk is evaluated on tree shapes with symbolic action results.", "other")
prop("P02", "One symbol per operator: grammar, internal constant, rendering and Python agree",
     "Every copula, connector, variable prefix, punctuation mark and tense mark denotes one and the same operator wherever it appears: in the written language, in the analysed term or sentence, in its rendering, and under its Python name. "
     "No two operators of a kind share a symbol.",
     ["inputs", "programs"], "all operators of the language",
     "The tests never render a term and never use the Python module, so a swapped table entry or enum value goes unnoticed.",
     ["Narsese/include/Copula.h", "Narsese/include/Connector.h", "Narsese/include/Variable.h", "Narsese/include/Tense.h", SH,
      "Narsese/src/Copula.cpp", "Narsese/src/Connector.cpp", "Narsese/src/Sentence.cpp", GA, "Narsese/Parser/narsese.par"],
     [("symbol tables", "Narsese/include/Copula.h"), ("enumeration bindings", "Narsese/src/Connector.cpp")],
     ["rendered text", "Python enumerations", "analysed terms"],
     "syntax-tree table query: constant tables, enumeration bindings and grammar literals compared operator by operator",
     "Exhaustive over the operators declared in the current source; tables are read from initialisers (constant evaluation by the engine).")
prop("P03", "Operators have their logical attributes",
     "Commutativity, reducibility, admissible number of operands and temporality of every connector, and commutativity, order, temporality, symmetric and reversed counterpart of every copula, are those of the logic. "
     "An operand count is accepted exactly when the connector admits it.",
     ["inputs", "programs"], "all operators, all operand counts",
     "The attributes are consulted only along some construction paths; no test asserts them.",
     ["Narsese/include/Connector.h", "Narsese/include/Copula.h"],
     [("attribute tables and their accessors", "Narsese/include/Connector.h")], ["the attribute functions", "construction of compounds"],
     "abstract evaluation of the attribute accessors for every operator and an interval partition of operand counts",
     "Exhaustive over operators; operand counts partitioned into 0, 1, 2, 3 and an unbounded symbolic class.")
prop("P04", "Processing input never corrupts memory and loses none",
     "Processing any sentence of the language frees every intermediate object exactly once, uses nothing after it is freed, reads nothing uninitialised, dereferences no null and treats every object as what it was created as. "
     "When it completes, everything it allocated is released or owned by the returned task or the symbol table.",
     ["inputs", "histories"], "all sentence shapes of the grammar, all sequences of two sentences sharing words",
     "The tests run without sanitizers on well-formed sentences of a few shapes; wrong ownership shows only for the action and optional part concerned.",
     [GA, PC, IH, TH, TI, CC], [("boxes handed from action to action through untyped pointers", GA)], ["memory errors and leaks while parsing"],
     SCEN.replace("structured", "allocation typestate in structured"), SCEN_NOTE)
prop("P05", "A sentence's term denotes exactly what was written",
     "For every sentence, the analysed term has the structure that was written: the same copulas and connectors, the same operands in the same order up to commutativity, with instance and property copulas standing for their set forms. "
     "Components that cannot be merged are kept unchanged.",
     ["inputs"], "all term constructs, spellings, operand counts and nestings of the grammar",
     "The parser tests only measure time; the structure of an analysed term is checked for no input.",
     [GA, CC, SI, "Narsese/Parser/narsese.par"], [("semantic actions building terms", GA), ("normalisation of compounds", CC)],
     ["structure of the task's term"], SCEN, SCEN_NOTE)
prop("P06", "Punctuation decides the kind of sentence, and the kind decides what it carries",
     "A sentence ended by a full stop is a judgement, by a question mark a question, by an exclamation mark a goal and by an at sign a quest, whatever optional parts it has. "
     "Judgements and goals always carry a truth value, questions and quests never do.",
     ["inputs"], "all punctuation marks, optional parts and term shapes", "No test looks at the kind of a parsed sentence.",
     [GA, SH], [("one action per punctuation", GA)], ["kind and truth of the task's sentence"], SCEN, SCEN_NOTE)
prop("P07", "Truth values are the written numbers; omitted ones are the configured defaults",
     "Frequency, confidence and evidential horizon of a judgement or goal are exactly the numbers written for them. "
     "Each number left out is the configured default for that component and kind of sentence, independently of the others.",
     ["inputs", "configurations"], "all ways of writing or omitting components, all numbers, all configurations",
     "No test reads a truth value back; the default handling depends on which components are present and on the configuration.",
     [GA, "Narsese/include/Truth.h", "Config.cpp"], [("defaults filled in when a component is marked absent", GA)], ["truth of the task's sentence"],
     "value-numbering abstract interpretation with polynomial normal forms over input numbers and configuration variables", SCEN_NOTE)
prop("P08", "Budgets are the written numbers; omitted ones are the configured defaults",
     "Priority, durability and quality of a task are exactly the numbers written for them. "
     "Each number left out is the configured default for that component and kind of sentence, and an omitted quality of a judgement or goal follows from its truth value.",
     ["inputs", "configurations"], "all ways of writing or omitting components, all kinds of sentence, all numbers, all configurations",
     "No test reads a budget back.", [GA, "Narsese/include/Budget.h", "Config.cpp"], [("defaults filled in when a component is marked absent", GA)],
     ["budget of the task"], "value-numbering abstract interpretation with polynomial normal forms over input numbers and configuration variables", SCEN_NOTE)
prop("P09", "Tense marks decide when a sentence holds",
     "A sentence without a tense mark is eternal; one with a mark is not, and occurs at the time the mark denotes: time zero for the present mark, one configured duration before or after it for the past and future marks, and the written number for an explicit time. "
     "A stamp reports the tense matching its occurrence time relative to the clock.",
     ["inputs", "configurations"], "all tense marks, kinds of sentence, written times, clock values and durations", "No test uses a tensed sentence or reads a stamp.",
     [GA, SH, "Narsese/include/Tense.h"], [("tense actions and stamp construction", GA), ("tense classification", SH)], ["stamp of the task's sentence"],
     "value-numbering abstract interpretation with polynomial normal forms; path conditions of the classification compared as linear forms", SCEN_NOTE)
prop("P10", "Variables are identified by kind and name within one sentence only",
     "Within a sentence two variables are the same exactly when they have the same kind and name; kinds never share identities. "
     "Variables of different sentences are unrelated: analysing a sentence does not depend on the variable names of earlier ones.",
     ["inputs", "histories"], "all sentences with up to several variables of every kind, all previous sentences",
     "The tests check no variable index; confusion needs two variables of particular kinds or a previous sentence.",
     [GA, "Narsese/Parser/NarseseParser.h", "Narsese/Parser/Parser.h"], [("per-kind name tables cleared at the start of each sentence", "Narsese/Parser/NarseseParser.h")],
     ["variable indices of the task's term"], SCEN, SCEN_NOTE)
prop("P11", "Facts recorded about a term are true of its structure",
     "For every term built, the recorded complexity, the presence of variables of each kind, being higher-order, being an operation and being commutative agree with its structure at every level.",
     ["inputs"], "all term constructs and nestings", "One test compares the flags of a clone with the original; none relates them to the structure.",
     [TH, SI, CC, VI, "Narsese/include/Operation.h", "Narsese/include/Interval.h"], [("flags computed in the constructors", CC)], ["flags of the task's term and its parts"],
     SCEN, SCEN_NOTE)
prop("P12", "Cloning yields an equal but independent term",
     "The clone of a term has the same structure, facts and variable identities as the original. "
     "No part of it that contains a variable is shared with the original, so that changing variables in one never shows in the other; parts without variables may be shared.",
     ["inputs"], "all term shapes, with variables of any kind at any position", "One clone test covers two terms with independent variables.",
     [TI, CI, SI, VI, XH], [("deep copying constructors", CI)], ["the cloned term"],
     "abstract interpretation with heap-shape comparison (aliasing of the clone with the original)", SCEN_NOTE)
prop("P13", "Terms are compared by a total order consistent with equality",
     "Comparing terms is irreflexive, asymmetric and transitive, and two terms neither of which precedes the other are equal. "
     "Equality relates exactly terms of the same structure with corresponding variables.",
     ["inputs"], "all pairs and triples of terms of equal or different kinds, hashes and variable identities",
     "Set tests use atoms; asymmetry fails only for compound operands with interleaved variable indices.",
     [TI], [("comparison operators", TI)], ["ordering of components", "equality of terms"],
     "finite-domain abstract evaluation of the comparison operators over all relative orders of their atomic observations",
     "Exhaustive over the orderings of hashes, indices and operators for bounded operand counts; sub-term comparisons are assumed lawful (induction on structure).")
prop("P14", "Component collections store, enumerate and combine components faithfully",
     "An ordered collection keeps every component in insertion order; an unordered one keeps each distinct component once. "
     "Enumeration visits each exactly once and its iterators own and release what they hold; intersection, union and difference are those of sets.",
     ["inputs", "histories"], "all sequences of insertions, all pairs of collections, all copies and assignments of iterators",
     "The container tests insert a handful of atoms and never copy-assign an iterator.",
     [TH], [("tagged collection and tagged iterator", TH)], ["components of a compound"],
     "structured abstract interpretation of container and iterator members under both tags; tag and ownership typestate", SCEN_NOTE)
prop("P15", "Compounds are normalised as documented",
     "Nested compounds of an associative connector are flattened, components of commutative ones are a set, and sets under intersections are merged as documented. "
     "Nothing else changes the connector or components of a compound, and products, images, differences and negations are never restructured.",
     ["inputs"], "all connectors, operand kinds, overlaps and orders of operands", "No test looks at the components of a normalised compound.",
     [CC], [("pre-processing of components", CC)], ["connector and components of constructed compounds"],
     SCEN, SCEN_NOTE)
prop("P16", "The symbol table stays coherent and atoms are interned",
     "A word or operation name denotes one atom for as long as any term uses it, whatever is analysed in between, and distinct names denote distinct atoms. "
     "After any sequence of insertions, removals and resets, name-to-key and key-to-name mappings, objects and counts describe the same entries, and every object is released exactly once.",
     ["inputs", "histories"], "all sequences of symbol-table operations, all pairs of sentences sharing names", "No test removes a symbol or looks a name up twice.",
     [IH, GA, TC, TI], [("paired maps updated together", IH), ("release of an atom with its last user", TI)], ["lookups by name and by key", "identity of atoms"],
     "structured abstract interpretation of every table operation from every coherent abstract state (inductive invariant)", SCEN_NOTE)
prop("P17", "Rendering shows the term, sentence and task it was given",
     "The text of a term names its operator and all its operands in order, that of a sentence its term, punctuation, tense and truth value, that of a task its budget as well, all in the written syntax. "
     "Coloured rendering shows the same operators, operands and numbers and never fails; the text of a name is never interpreted.",
     ["inputs"], "all term, sentence and task shapes, all names, both rendering modes", "The tests print at most a few sentences and compare nothing.",
     [IC, "Narsese/src/Task.cpp", "Narsese/src/Sentence.cpp", TC], [("rendering functions", IC)], ["the rendered text"],
     "abstract interpretation over token strings; format strings checked against argument lists", SCEN_NOTE)
prop("P18", "Evidence is never lost, invented or counted as overlapping wrongly",
     "Every input sentence rests on a fresh evidential base of its own. Merging bases yields exactly the evidence of both up to the configured maximum, leaves the other base alone and invalidates cached hashes. "
     "Two bases overlap exactly when they share evidence.",
     ["inputs", "histories", "configurations"], "all sentences, all pairs of bases, all maximum lengths", "Evidence is covered by no test.",
     ["Narsese/include/Evidence.h", SH, "Global.h", GA], [("input counter and evidential bases", "Narsese/include/Evidence.h")], ["evidential base of a stamp", "merged bases"],
     SCEN, SCEN_NOTE)
prop("P19", "The outcome of parsing depends on the sentence alone",
     "Whatever was parsed before, accepted, rejected or aborted by an error, analysing a sentence gives the same result as with a new parser. "
     "A sentence that is not of the language yields no task, and a new parser starts from a fully determined state.",
     ["inputs", "histories"], "all previous inputs and outcomes", "Every test uses well-formed input on a fresh or successfully used parser.",
     [PC, "Narsese/Parser/Parser.h", "Narsese/Parser/narsese.cpp", "Narsese/Parser/NarseseParser.h"], [("state reset around each parse", PC)],
     ["result of parsing after other inputs"],
     "definite-initialisation and stale-state analysis of parser fields, with a table query on lexer and action tables", SCEN_NOTE)
prop("P20", "The generated tables implement the written grammar",
     "The parser accepts exactly the sentences of the grammar definition, lexical and syntactic, and gives each accepted sentence the structure the definition prescribes.",
     ["inputs", "programs"], "all token sequences, all spellings of tokens", "The tests use a fixed list of sentences; a wrong table entry concerns one production in one context.",
     ["Narsese/Parser/narsese.h", "Narsese/Parser/narsese.cpp", "Narsese/Parser/narsese.par"], [("generated automata", "Narsese/Parser/narsese.h")], ["acceptance and parse trees"],
     "translation validation of the generated tables against the grammar definition (production, item-set and automaton comparison)",
     "Exhaustive over states, symbols and productions; language equality of token automata by product construction.", "translation_validation")
prop("P21", "The Python module exposes working operations and reports failures",
     "Every enumeration value, class, property and function the module defines refers to the native entity of that name and can be called with the arguments Python passes. "
     "A sentence that cannot be parsed raises an exception, and every object has a textual representation.",
     ["inputs", "programs"], "all bindings, all inputs", "The tests never load the Python module.",
     ["Narsese.cpp", TC, CC, "Narsese/src/Statement.cpp", "Narsese/src/Sentence.cpp", "Narsese/src/Task.cpp", "Narsese/src/Truth.cpp", "Narsese/src/Budget.cpp", GA],
     [("binding definitions", "Narsese.cpp")], ["the module's classes, enumerations and functions"],
     "typed syntax-tree query over binding calls (conversion of parameters, error protocol, registration order)", "Exhaustive over the binding calls of the current source; rules encode the pybind11 conversion protocol.")
prop("P22", "Truth functions compute the functions of the logic",
     "Revision, deduction, induction, comparison, projection, the boolean operations and the conversions between truth values and evidence compute the functions defined by the logic for all arguments. "
     "Conversions are mutually inverse where both are defined.",
     ["inputs"], "all truth values and evidence weights", "No test calls a truth function.",
     ["NAL/Functions/include/TruthFunctions.h", "NAL/Functions/include/UncertaintyMappingFunctions.h", "NAL/Functions/include/ExtendedBooleanFunction.h",
      "NAL/Functions/include/TemporalFunctions.h", "Narsese/include/Truth.h", "Narsese/include/Budget.h"], [("arithmetic definitions", "NAL/Functions/include/TruthFunctions.h")],
     ["results of the truth functions"], "value numbering to rational-function normal forms compared with the defining formulas",
     "Exact over the reals for all arguments; rounding of floating-point arithmetic is outside.")
prop("P23", "Objects are destroyed as what they are",
     "Whatever handle releases the last reference to a term, sentence or task, the complete object is destroyed, including parts only its own kind has. "
     "No handle releases memory it does not own, and none is released twice.",
     ["inputs", "programs", "histories"], "all owning handles and all kinds of objects they can hold", "Partial destruction is silent without sanitizers.",
     [TH, SH, "Narsese/include/Variable.h", "Narsese/include/Task.h", GA], [("shared ownership through base-class handles", TH)], ["destruction of tasks"],
     "type-based ownership analysis: every deleting expression and owning handle against the hierarchy of constructed types",
     "Exhaustive over delete expressions and smart-pointer constructions of the current source.")
prop("P24", "Variable indices of a term describe its variables position by position",
     "For every term, the variable indices of each kind list the variables of that kind from left to right with their positions, share the identity objects of the parts, and their normal form is invariant under renaming. "
     "Cached values derived from indices are never older than the indices.",
     ["inputs", "histories"], "all term shapes, all sequences of index operations", "One test reads the indices of two terms.",
     [XC, XH, TI], [("linking and building of index trees", XC)], ["indices, positions and normal forms of a term"],
     SCEN, SCEN_NOTE)

# not applicable to static analysis
prop("P30", "Different terms have different hashes", "Terms of different structure have different hash values, so that equality by hash is exact.",
     ["inputs"], "all pairs of terms", "Collisions depend on runtime addresses and all pairs of inputs.", [TI, "utils/hash.h"], [("hash combination", "utils/hash.h")], ["hash values"],
     na="Hash values mix runtime addresses of atoms with a non-injective combiner; whether two concrete terms collide is a runtime quantity no static argument bounds (collisions provably exist).")
prop("P31", "Analysing a sentence takes time proportional to its length", "Parsing time grows at most linearly with the length of the sentence.",
     ["inputs"], "all sentences", "Timing tests cover six sentences.", ["Narsese/Parser/narsese.cpp", CC], [("table-driven parsing", "Narsese/Parser/narsese.cpp")], ["time to parse"],
     na="Running time is a runtime quantity; set insertions and deep copies per nesting level make the bound depend on hash and comparison behaviour that is not statically bounded.")
prop("P32", "Arbitrarily deep sentences are handled within the machine's stack", "Sentences of any nesting depth are analysed or rejected without exhausting the call stack.",
     ["inputs"], "all nesting depths", "Tests use shallow sentences.", [PC, TI], [("recursive tree walk and destruction", PC)], ["behaviour on deep input"],
     na="The tree walk, the constructors and the destructors recurse over the input; the depth at which the stack ends is a property of the machine, and no bound on the depth exists in the source to analyse.")
prop("P33", "Floating-point results are accurate", "Stored and computed truth and budget values differ from their exact values by at most the rounding of their type.",
     ["inputs"], "all numbers", "No numeric test exists.", ["NAL/Functions/include/TruthFunctions.h", "Narsese/include/Truth.h"], [("single-precision storage", "Narsese/include/Truth.h")], ["numeric values"],
     na="Accumulated rounding over single-precision division near singular points (confidence near 1) is input-dependent and unbounded; P22 decides the formulas over the reals instead.")
prop("P34", "Rendered sentences parse back to the same sentence", "Rendering a task and analysing the text again yields a task with the same term, kind, truth, tense and budget.",
     ["inputs"], "all tasks", "No round-trip test.", [IC, GA], [("rendering and parsing as inverse functions", IC)], ["re-parsed rendering"],
     na="Whole-text round trip depends on decimal formatting and re-parsing of runtime numbers and on unique naming of unnamed atoms; the structural half (operators, operands, order) is decided by P02, P05 and P17.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"],
                            "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(os.path.join(HERE, "cnv/rules/%s.py" % p["id"].lower())):
            checks.append({"property": p["id"], "quick_cmd": "python3 -m cnv.check %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 -m cnv.check %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only: a clang-based exporter (tool/exporter.cpp) writes the typed syntax trees of /repo's current source, "
                  "and the analyses in cnv/ decide each property from them. No code of /repo is compiled to an executable or run."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
