#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept in one place so that wording stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
NAL = "NAL/Functions/include/"
NI = "Narsese/include/"
prop("C01", "Inference keeps truth values and expectations in range",
  "For every pair of truth values with frequency in [0,1], confidence in [0,1) and positive evidential horizon, the truth value that revision, deduction, induction or comparison yields again has frequency in [0,1], confidence in [0,1] and an unchanged or default positive horizon; it is never NaN or infinite, also when an operand carries no evidence. Expectation, evidence amounts and the extended Boolean conjunctions/disjunctions of values in [0,1] likewise stay in their ranges.",
  ["inputs"], "all frequencies and confidences, all positive horizons, in machine floating point including every rounding",
  "The truth functions are not called by any test at all, and a range defect shows only at particular operands (zero evidence, saturated confidence).",
  [NAL+"TruthFunctions.h", NAL+"ExtendedBooleanFunction.h", NAL+"UncertaintyMappingFunctions.h", NI+"Truth.h"],
  [("truth functions", NAL+"TruthFunctions.h"), ("And/Or", NAL+"ExtendedBooleanFunction.h"), ("Truth::set_w guards division by zero evidence", NI+"Truth.h")],
  [("f, c, k", "frequency, confidence, evidential horizon", NI+"Truth.h")])
prop("C02", "Truth functions compute their NAL definitions",
  "Deduction yields f=f1*f2, c=f1*f2*c1*c2; induction yields positive evidence f1*f2*c1*c2 out of total evidence f2*c1*c2; comparison yields positive evidence f1*f2*c1*c2 out of total evidence (f1 or f2)*c1*c2; revision adds the operands' positive and total evidence and stores the resulting truth value in the first operand, leaving the second unchanged. The extended Boolean operators on two, three, four or a list of arguments are product and complement-of-product-of-complements; none of the functions other than revision modifies its operands.",
  ["inputs"], "all operand truth values and horizons, all argument lists",
  "No test evaluates a truth function; a wrong operand or factor changes results only for operands that differ there.",
  [NAL+"TruthFunctions.h", NAL+"ExtendedBooleanFunction.h"],
  [("truth_deduction/induction/comparison/revision", NAL+"TruthFunctions.h"), ("And/Or", NAL+"ExtendedBooleanFunction.h")])
prop("C03", "Truth values and evidence amounts convert consistently",
  "Converting a truth value to positive, negative and total evidence and back returns the same frequency and confidence whenever there is any evidence; positive plus negative evidence equals total evidence; and every route the library offers for the same conversion (members of the truth value, free functions, tuple or out-parameter form) gives the same answer. No evidence maps to frequency 0.5 and confidence 0.",
  ["inputs"], "all frequencies in [0,1], confidences in [0,1), positive horizons, evidence amounts",
  "Untested; the routes are written independently of each other and can drift apart for horizons other than 1 or for extreme values only.",
  [NAL+"UncertaintyMappingFunctions.h", "NAL/Functions/src/UncertaintyMappingFunctions.cpp", NI+"Truth.h"],
  [("fc_to_w*, w_to_f, w_to_c, truth_from_w, w_from_truth", NAL+"UncertaintyMappingFunctions.h"), ("Truth::w/w_p/w_m/set_w/e", NI+"Truth.h")])
prop("C04", "Temporal projection discounts confidence with distance",
  "Projecting a truth value from a source time to a target time keeps frequency and horizon and multiplies confidence by 1 - |source-target| / (|source-current| + |target-current| + decay); projecting to the same time changes nothing, confidence never increases and never becomes negative, and the input truth value is not modified.",
  ["inputs"], "all truth values, all times source/current/target, all decay durations",
  "Projection is not called by any test; integer versus real division, sign and overflow defects depend on the particular times.",
  [NAL+"TemporalFunctions.h"], [("project", NAL+"TemporalFunctions.h")])
prop("C05", "Connector and copula classifications are coherent",
  "Every connector and copula is classified (commutative, reducible, temporal, higher-order, arity) and spelled as Narsese defines it, a component count is accepted exactly when the connector admits that arity, and the symmetric and reversed counterparts of a copula are the copulas Narsese defines (reversal is an involution where it exists, symmetrising is idempotent and lands on a commutative copula). The names offered to Python denote the members of the same name.",
  ["inputs"], "all connectors, all copulas, all component counts",
  "Tests use a handful of connectors and copulas and never the arity check, the counterpart functions or the full Python enumerations.",
  [NI+"Connector.h", NI+"Copula.h", "Narsese/src/Connector.cpp", "Narsese/src/Copula.cpp"],
  [("classification tables and check_valid", NI+"Connector.h"), ("classification tables, symmetrize, reverse", NI+"Copula.h"), ("Python enumerations", "Narsese/src/Connector.cpp")])
prop("C06", "The term order is a strict weak order",
  "The order used to keep components sorted is irreflexive, asymmetric and transitive, and incomparability is transitive, over all terms: atoms, variables, statements and compounds of any nesting and size. It orders neither term before the other whenever the two terms are equal, and it never faults.",
  ["inputs"], "all triples of terms, of any kind, nesting depth and number of components",
  "Ordered containers silently lose or duplicate components when this fails, which needs specific combinations of variables and nested components; tests never compare such triples.",
  [NI+"Term.inl"], [("Term::operator<", NI+"Term.inl"), ("Terms::compare", NI+"Term.h")])
prop("C07", "Term equality is a structural equivalence",
  "Equality of terms is reflexive, symmetric and transitive, and never faults. Two statements are equal only if copula, subject and predicate are, two compounds only if connector, component count and all components are, and two variables only if they have the same kind and the same index; equal terms have equal hash values.",
  ["inputs"], "all pairs and triples of terms of any kind, nesting depth and number of components",
  "Only one equality is asserted in the tests; variable kinds other than independent, and compounds that differ in one late component, are never compared.",
  [NI+"Term.inl", NI+"Term.h"], [("Term::operator==", NI+"Term.inl")])
prop("C08", "Component collections are faithful lists and sets",
  "A non-commutative component collection built from any source (list, vector, set, initializer list, other collection) holds exactly the given components in the given order with repetitions, and a commutative one holds exactly one representative of each distinct component in sorted order; adding a component, reporting the size, iterating forwards, offsetting an iterator and converting to a plain vector all agree with that content. Iterators can be copied freely without affecting the collection or each other.",
  ["inputs", "histories"], "all collections of any size, all sequences of additions, all sources",
  "Tests build a few three-element collections and print them without checking content.",
  [NI+"Term.h"], [("Terms constructors, fill_terms, push_back, size, begin/end, conversion", NI+"Term.h"), ("Iterator", NI+"Term.h")],
  [("terms_ordered / terms_unordered", "ordered and commutative representation", NI+"Term.h")])
prop("C09", "Set algebra on component collections is exact",
  "Intersection, union and difference of any positive number of commutative component collections contain exactly the components set theory prescribes (difference subtracts every later operand from the first), are commutative collections themselves, and leave all operands unchanged. Having no operand, or a non-commutative later operand, is reported as an error instead of giving a result.",
  ["inputs"], "any number of operands of any size",
  "The test calls each operation once with two or three fixed operands and asserts nothing.",
  [NI+"Term.h"], [("Terms::intersection/union_/difference", NI+"Term.h")])
prop("C10", "Variable index normalisation is canonical",
  "Normalising a sequence of variable indices gives a sequence of the same length in which equal indices stay equal, different ones stay different, relative order is kept and the values used are exactly 0..k-1; so two sequences differing only by an order-preserving renaming normalise identically and normalising twice changes nothing. The normalised form reported after indices were added, removed, connected or rebuilt is that of the current indices, never of earlier ones.",
  ["inputs", "histories"], "all index sequences of any length and values; all histories of modifications",
  "No test inspects normalised indices; staleness needs a modification after a query.",
  ["utils/IndexVar.cpp", "utils/IndexVar.h"], [("_normalize, IndexVar::normalize, indices_normalized", "utils/IndexVar.cpp")],
  [("_indices_normalized", "cached normal form", "utils/IndexVar.h")])
prop("C11", "Variable occurrence index mirrors the components",
  "After building, the occurrence index of a composite term lists, component by component in order, exactly the variable occurrences of that variable kind in the components, each with the component's number prefixed to its position, and as many positions as indices; occurrences of independent, dependent and query variables are kept apart. Building again, or rebuilding, gives the same result, and copies of an index share nothing with the original.",
  ["inputs", "histories"], "all numbers of components, all occurrence lists, all histories of connect/build/rebuild",
  "No test looks at positions; mixing of variable kinds needs terms that contain several kinds.",
  ["utils/IndexVar.cpp", "utils/IndexVar.h", NI+"Term.inl"], [("IndexVar::connect/build/add/remove/clone", "utils/IndexVar.cpp"), ("Term::_init_indexvars", NI+"Term.inl")])
prop("C12", "Pooling evidence is sound, bounded and complete within bounds",
  "Pooling two evidential bases yields only identifiers that occur in one of them, yields all of them whenever their number is within the configured maximum, and never more than the maximum; extending a base by another has the same content result in place, never loses its own identifiers when there is room, and leaves the other base unchanged. Two bases overlap exactly when they share an identifier, and the hash of a base always reflects its current content.",
  ["inputs", "histories"], "all evidential bases of any size and any 64-bit identifiers, all histories of extend/add/hash",
  "No test touches evidential bases; losses and overshoots need particular sizes relative to the maximum.",
  [NI+"Evidence.h"], [("Base::interleave/extend/is_overlaped/add/__hash__", NI+"Evidence.h")],
  [("_set", "evidence identifiers", NI+"Evidence.h"), ("_hash/_is_hashed", "cached hash", NI+"Evidence.h")])
prop("C13", "Stamps classify time and always carry evidence",
  "A stamp is eternal exactly when created or made so, and otherwise future, past or present according to whether its occurrence time lies at least one temporal duration after the present, at least one before it, or in between; exactly one tense applies. Every stamp carries a non-empty evidential base whichever way it was created, two stamps created without explicit evidence never share evidence, and explicitly given times and evidence are stored unchanged.",
  ["inputs", "histories"], "all occurrence and current times, all durations, all construction routes and their order",
  "Tests construct stamps only indirectly with the default time and never ask for tense or evidence.",
  [NI+"Sentence.h", NI+"Tense.h", "Global.h"], [("Stamp constructors, tense, eternalize", NI+"Sentence.h"), ("get_input_id", "Global.h")])
prop("C14", "The name dictionary stays a consistent bijection",
  "Through any sequence of registrations, releases and removals, key lookup, name lookup, object lookup and reference count describe the same set of entries: a registered key yields its name and object, the name yields the key, and an entry disappears from all views at once, exactly when its count drops to zero or it is removed. Operations on one entry never change another entry, and releasing or removing something unknown reports failure and changes nothing.",
  ["histories", "inputs"], "all sequences of operations, all distinct keys over the full key range, all names",
  "Tests register a few atoms by parsing and never release or query them.",
  ["Interpreter/include/Interpreter.hpp"], [("put/get/check/remove/remove_by_name/erase/check_count", "Interpreter/include/Interpreter.hpp")],
  [("dictionary, dictionary_inv, objects, count", "the four views", "Interpreter/include/Interpreter.hpp")])
prop("C15", "Constructed terms carry correct derived attributes",
  "A newly built statement or compound stores exactly the given copula/connector and components, knows whether it contains independent, dependent, query or any variables iff some component does, whether it is commutative, higher-order or an operation, and its complexity is determined by its components (statement: one plus both, compound: the sum, atoms and variables one). Its hash depends only on its own structure, so building the same term again from equal components gives an equal hash.",
  ["inputs"], "all copulas, connectors, components of any kind and any number of components",
  "Tests print such terms; no attribute is asserted.",
  [NI+"Statement.inl", "Narsese/src/Compound.cpp", NI+"Variable.inl", NI+"Term.h", NI+"Interval.h", NI+"Operation.h"],
  [("Statement::Statement", NI+"Statement.inl"), ("Compound::Compound", "Narsese/src/Compound.cpp"), ("Term::_refresh_var_status", NI+"Term.h")])
prop("C16", "Cloning a term is faithful and independent",
  "Cloning a term that contains variables yields a different object of the same kind that agrees with it in every attribute (copula, connector, component order, variable kind, name and indices, flags, complexity, hash), recursively; cloning a variable-free term yields the very same term. Later changes to variable indices of the clone are not visible in the original and vice versa.",
  ["inputs", "histories"], "all terms of any kind, nesting and size",
  "The single cloning test compares one fixed statement by equality and hash only.",
  [NI+"Term.inl", NI+"Statement.inl", NI+"Compound.inl", NI+"Variable.inl", "utils/IndexVar.h"],
  [("Term::clone", NI+"Term.inl"), ("deep copy constructors", NI+"Statement.inl")])
prop("C17", "Sentences and tasks get stated values, defaults elsewhere",
  "A parsed judgement, goal, question or quest has the matching punctuation, exactly the truth value, desire, tense and budget components the text states, and the configured default for its sentence kind wherever the text omits one that is filled in; omitted budget quality of a judgement or goal is derived from its truth value, the larger of expectation and three quarters of its complement. Questions and quests never carry a truth value, and a sentence is eternal exactly when no tense is stated.",
  ["inputs", "configurations"], "all stated values, all subsets of omitted components, all configured defaults, all sentence kinds",
  "Tests only check that example lines parse; no component of a parsed task is compared.",
  ["Narsese/Parser/NarseseParser.cpp", NI+"Sentence.h", NI+"Task.h", NI+"Budget.h"],
  [("task, judgement, goal, question, quest, truth, budget, tense_* actions", "Narsese/Parser/NarseseParser.cpp"), ("Budget::quality_from_truth", NI+"Budget.h")])
prop("C18", "Parser actions build the term the notation denotes",
  "For every statement and compound notation, the parser's term-building step yields the term that Narsese defines: subject, predicate and components in textual order, the copula or connector written, instance/property copulas expanded to inheritance with the singleton extensional/intensional set on the proper side, and operations expanded to inheritance from the product of the arguments to the operator. Variables of the same kind and name get the same index and differently named ones different indices.",
  ["inputs"], "all operands of any kind, all copulas and connectors, any number of components and names",
  "Tests parse lines and check only that a result exists.",
  ["Narsese/Parser/NarseseParser.cpp"], [("statement, statement_operation1/2, set, multi_prefix*, multi_*_expr, single_*, negation, *_var actions", "Narsese/Parser/NarseseParser.cpp")])
prop("C19", "Compound normalisation preserves meaning",
  "Building a compound keeps its components as given unless Narsese's reduction rules apply: nested compounds with the same reducible connector are flattened, and intersections of sets under set-reducing connectors become the intersection or union of their elements with the proper set connector. No component is dropped or unwrapped from a different connector, non-reducible connectors keep every component and repetition, and the operands are left unchanged.",
  ["inputs"], "all connectors, any number of components, any nested compounds",
  "Tests build a few compounds without comparing the result; the wrong reductions need duplicates, singletons or mixed nested connectors.",
  ["Narsese/src/Compound.cpp"], [("prepocess_terms, _merge_compounds", "Narsese/src/Compound.cpp")])
prop("C20", "Textual rendering is defined and unambiguous",
  "Rendering a term, sentence or task succeeds for every kind of term and sentence, with or without colouring, and shows copula, connector, component order, punctuation, tense, truth and budget of the object in Narsese notation; composite terms render as a fixed function of their components' renderings.",
  ["inputs"], "all kinds of terms, sentences and tasks, both colouring modes",
  "Tests print uncoloured renderings without checking them.",
  ["Interpreter/src/Interpreter.cpp"], [("Interpreter::interpret overloads", "Interpreter/src/Interpreter.cpp")])
prop("C21", "Parsing is memory safe and independent of earlier parses",
  "Parsing any text, well-formed or not and of any length, neither reads nor writes outside the parser's buffers and terminates; the result for a text depends on that text only and not on texts parsed before, also when an earlier one failed.",
  ["inputs", "histories"], "all input texts of any length and all sequences of parses",
  "Tests parse a fixed set of example lines; out-of-bounds accesses need tokens whose length hits the buffer granularity.",
  ["Narsese/Parser/narsese.cpp", "Narsese/Parser/Parser.cpp", "Narsese/Parser/narsese.h"],
  [("_parser::get_input/clear_input/lex/parse", "Narsese/Parser/narsese.cpp"), ("Parser::parse_string", "Narsese/Parser/Parser.cpp")],
  [("buf, bufend, bufsize", "look-ahead buffer", "Narsese/Parser/narsese.h")])
prop("C22", "Names denote one atom each",
  "While an atom or operator is registered, reading its name again yields that same term, different names yield different terms, and an operator name never collides with the atom of the same spelling; reading a name for the first time registers a new term under exactly that name. This holds in any order of first uses of atoms and operators.",
  ["histories", "inputs"], "all names and all orders of first and repeated use",
  "Tests never read an operator and an atom of the same spelling, nor check identity of re-read names.",
  ["Narsese/Parser/NarseseParser.cpp", "Interpreter/include/Interpreter.hpp"], [("atom_term and operation actions", "Narsese/Parser/NarseseParser.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
