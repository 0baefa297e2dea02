HEAD = """# Design

What is decided here, and how. `properties.jsonl` states the properties, `MANIFEST.json` registers one check per decided
property (`python3 check.py <id>`), `known_findings.json` lists defects of the code under analysis. This file is written by
`tools/design.py` from those files and `tools/design_data.py`.

## The code

pact-reference is the reference implementation of the Pact contract testing formats. `rust/pact_models` holds the model: the
pact file formats V1 to V4 with their readers and writers, matching rules, generators, bodies, content types, paths,
expressions and merging. `rust/pact_matching` compares values and bodies under those rules. The other crates (`pact_verifier`,
`pact_consumer`, `pact_ffi`, the command line) are built on them; `pact_mock_server` has moved to another repository.
In this sandbox `/opt/vp/build.sh` builds `pact_models` (for wasm32-wasip1, with the features
`datetime` and `form_urlencoded`), as the dependencies of the other crates are not there. `pact_models` is analysed in the configuration
that is built and tested. `pact_matching` cannot be built, but it can be type-checked against stub crates (`stubs/`: signatures of the
dependencies without bodies), which is all an analysis of its own MIR needs: P40 to P42 are about it. For the other crates the stubs would have
to stand for HTTP clients and servers, async runtimes and plugin processes, which is where their behaviour comes from; they are in the list of what is
not applicable.

## The method: value-flow analysis over MIR

Every check runs the same pipeline, from `/repo`'s current working tree:

1. **Extraction** (`an/extract.py`, `driver/`, `stubs/`). A rustc driver (nightly, `rustc_private`) compiles the crate and writes every
   function's optimised-for-analysis MIR, with types, layouts and resolved callees, as JSON lines. A copy of the source is
   compiled outside `/repo`; nothing in `/repo` is written. Generic and dynamic calls are resolved from the receiver's type at the call.
2. **Abstract interpretation** (`an/engine.py`). Functions are interpreted with inlining over a domain of *value numbers*: hash-consed terms whose leaves are
   arbitrary inputs. Branches on unknown conditions split the state, and states are **joined** again at merge points into guarded choices
   (`an/guards.py`: a small decision procedure for guards made of variants, equalities and class tests, without a solver). Loops over
   collections of symbolic contents become maps, folds and filters of the element term; loops over collections of known shape, and over abstract characters,
   are peeled. Nothing is executed: no process runs repository code, and an input stands for all values of its shape.
3. **Transfer functions** (`an/models.py`, `an/text.py`, `an/lexer.py`, `an/chronos.py`, `an/libmime.py`) for std, serde_json, itertools, maplit, nom-like string calls, regex, mime, chrono and
   the logos lexers (whose automaton is read out of the generated MIR). They are written from the documentation of those libraries and are trusted.
4. **Normalisation** (`an/norm.py`, `an/rt.py`): rewriting to normal forms, so that `read(write(v))` can be compared with `v` field by field, and case splits on the guards that remain.
5. **Obligations** (`an/report.py`). A rule yields obligations, one per field, variant, path or shape: *discharged* (proved equal in the domain), *violated*
   (the two normal forms differ and both are resolved, so the difference is shown by the shape and values that are printed), or *open* (a value could not be resolved).
   A violation names the obligation, the function and source line, and both values, and is written to `evidence/<id>.violation.json`.
   Open obligations are counted in the evidence and are never alarms; on the unchanged tree there are none.

What makes the inputs abstract: objects are symbolic in every field (any text, any JSON value, any map) unless the shape matters; strings whose characters matter are
tuples of **character classes** (a representative class per way the code can treat a character); map orders that matter are tried in each order (hash maps), and dates are **places in the calendar** with symbolic clocks.
This is trace partitioning; the partitions are the bounds given below per property.

Why this rather than syntactic rules: the checks must judge what the code does. Nothing refers to local variables, private helper names, statement order
or the form of loops; private helpers are found by signature where they must be found at all. Only the public interface (which has to stay for the tests to compile) is named.
Every batch of planted bugs was accompanied by a batch of refactorings that had to stay quiet (see below).

Limits. The transfer functions are trusted. Shapes are bounded (lists of two or three, maps of two, texts of a few classes); a defect that appears only in longer ones is missed, unless the loop is summarised
as a map/fold (which is the case in the readers and writers). Panics are reported where a path that is reachable for the abstract input ends in one. Arithmetic on unknown integers is not bounded except through the ranges the code itself checks.
"""
HOW = {
"P01": ("the V4 HTTP writer composed with the reader, with every field of the interaction arbitrary; the parts for provider states, bodies, content types, hints and markup through their own rules; what is left open in one part is decided in the rule for that part.", "the input value itself: field by field identity, up to the stated normalisations.", "about 20 s"),
"P02": ("the writers of both V4 message types composed with their readers; lists of responses are symbolic, so every response is covered by the summarised loop.", "the input value itself.", "about 20 s"),
"P03": ("the V3 message writer composed with the reader, for each body state and each kind of metadata value.", "the input value itself.", "about 17 s"),
"P04": ("request, response and interaction writers composed with the readers for V1.1, V2 and V3, with each state of the body, each shape of query and headers.", "the input value itself, with the restrictions of the older formats.", "about 25 s"),
"P05": ("the writers of the four kinds of pact composed with both loaders, for pacts with interactions of each kind and metadata keys by class.", "the input value and its dynamic type.", "about 20 s"),
"P06": ("every variant of the matching rule type through writer and reader, and through type name and values; every spelling of a rule in the specifications through the reader; nested rules for arrays and collections.", "the input rule; the table of spellings of the V2 to V4 specifications.", "about 20 s"),
"P07": ("every variant of the generator type through writer and reader, type name and attributes.", "the input generator.", "about 17 s"),
"P08": ("sets of rules and generators per category, with lists of rules and names by class, through the V2 flat form, V3 and V4 forms.", "the input set.", "about 30 s"),
"P09": ("each enumerated type: every name that is written is read, every spelling that is accepted is read; names are pairwise different.", "identity; the list of spellings of the specifications.", "about 16 s"),
"P10": ("the writer of a body in a V4 document composed with the reader for each state, content type class, hint and class of bytes (text, JSON, not text); the readings of a body as text and the ways of making one.", "the input body; RFC 4648 for base64 (an inverse pair in the model).", "about 20 s"),
"P11": ("every conversion method between V2/V3 and V4, on an arbitrary source; compositions up and down.", "the attribute of the source that the target attribute stands for.", "about 25 s"),
"P12": ("equality of each type with one field changed at a time (and none), both ways round; hash of equal values in both map orders: the sequence written to the hasher is the same; the key of an interaction is a function of the contents alone.", "the list of fields per type that take part in comparison, from the type's documentation and the V4 specification.", "about 40 s"),
"P13": ("merge of two pacts of up to two interactions each (three in the thorough tier) over identities by key, description, state and kind.", "a reference union, computed by the check.", "about 40 s (thorough: minutes)"),
"P14": ("every question about a body in each state, with arbitrary bytes, type and hint, every way of making one and of changing its type.", "the state, bytes, type and hint it was made with; hexadecimal digits computed by the check.", "about 15 s"),
"P18": ("lookup, setting and adding of headers in several spellings and both map orders; content type from body, header, metadata and contents, for requests, responses and messages.", "case-insensitive names; the documented precedence.", "about 18 s"),
"P19": ("every getter, setter, view and copy on every interaction and pact type behind the dynamic interfaces, on an arbitrary receiver.", "the table of attributes per type.", "about 20 s"),
"P21": ("version recognisers on each declared form; loaders on documents of each version and kind.", "the forms the specifications list.", "about 16 s"),
"P22": ("decoder and encoder on every ASCII character and wider ones between arbitrary letters, all escapes of two digits; queries of up to four parameters.", "UTF-8 and percent-encoding computed by the check.", "about 25 s"),
"P23": ("the path builder and parser: every name over the character classes; every text of classes up to length three after the root.", "a reference grammar in the check, from the documentation of path expressions.", "about 40 s (thorough: minutes)"),
"P25": ("the lexers (automata read out of the MIR), the parsers and the evaluation of date, time and combined expressions on abstract dates.", "a reference grammar and calendar in the check.", "about 85 s"),
"P26": ("the parser of matching rule definitions: every function of the grammar, its parameters by class, spacing, combination and nesting; refusals of everything one edit away.", "a reference grammar in the check, from the documentation of definitions.", "about 65 s"),
"P27": ("rule selection for sets of up to three rules over eleven paths in both iteration orders.", "the documented weights (a named part 2, wildcard 1, product over the path), computed by the check.", "about 33 s"),
"P28": ("the editing operations on lists, categories and sets of rules.", "list and map operations computed by the check.", "about 20 s"),
"P30": ("reading, writing, comparing and classifying content types; detection over documents by class of beginning.", "the tables of the documentation; the mime grammar.", "about 20 s"),
"P33": ("the interfaces of a pact: interactions, parties, plugins, metadata, upgrade and downgrade.", "lists computed by the check.", "about 20 s"),
"P34": ("the reader of provider states on every documented form; writer composed with reader.", "the specifications' forms.", "about 15 s"),
"P29": ("the reader of patterns, the check of a value and the format string are interpreted (with models of the parser combinators, the month lengths and the zone tables read from their initialisers) on each letter at each count, with values of known characters and classes of characters.", "the documented table of symbols, with number ranges, names and month lengths, written down in the check.", "about 45 s"),
"P20": ("each format check interpreted on every JSON type in every position with arbitrary contents, for each version, strict and not; the whole list of reports.", "an enumeration in the check of the reports that each shape calls for.", "about 15 s"),
"P24": ("every kind of generator asked for texts, lists and JSON values, in each context, with each outcome of its random draws at the ends, middle and neighbours; the handlers of JSON and forms on documents with a generator for each kind of path.", "the descriptions of the generators and a reference walk along paths in the check.", "about 45 s"),
"P36": ("replacement in texts of up to five significant characters and three pieces, and conversions between kinds of values.", "a reference reading of the expressions in the check.", "about 35 s"),
"P40": ("the comparison of a value under a rule interpreted for every rule and pairs of values of every type the code compares (texts, numbers of five types, booleans, bytes, JSON); about 14000 verdicts, plus texts of arbitrary content.", "the meaning of each rule written down independently in the check (`reference`).", "about 45 s"),
"P41": ("the comparison of JSON documents interpreted on all pairs of some fifty documents, both settings for unexpected entries; about 3400 pairs.", "a recursive definition of where two documents differ (`differences`).", "about 30 s"),
"P42": ("the comparison of JSON documents interpreted under some forty rule sets; about 1760 combinations of rules, expected and actual document.", "a recursive definition of what rules refuse (`Under`): weight of paths, inheritance, the meaning of each rule.", "about 40 s"),
}
BATCHES = """
Apart from the seeds, batches of further small changes, well over a hundred (bugs to be found, refactorings that must stay quiet: helpers extracted, loops rewritten as iterator chains and back, matches rewritten as ifs,
statements reordered, clones moved) were run with `tools/try.py`, and single-operator mutants with `tools/mutate.py`, over all of the files that are covered, and every miss or false alarm led to a change of the engine or of a rule, or to a statement above of what is not claimed.
"""
TAIL = """
Not claimed, as the documentation is silent or an existing test pins something else: the day reached by adding months when the month is too short; the text that an escaped quote in a
definition stands for; names of no characters in paths; numbers above 65535 as statuses; headers that differ only in case in one document.
"""
