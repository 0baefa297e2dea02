VF = "interprocedural value-flow analysis (abstract interpretation over MIR with global value numbering)"
RT_NOTE = ("Composes the writer with the reader symbolically and compares normal forms field by field, for every value and every branch. "
           "Trusts the transfer functions of std/serde_json/itertools in an/models.py; values it cannot resolve are left open (reported in the evidence), not alarmed.")
RT_WHY = "The unit tests write and read a few hand-made documents; the guarantee is for every field value and every combination of present and absent parts."
P("P01", "V4 HTTP interactions survive a write/read cycle",
  "A V4 HTTP interaction written as JSON and read back has the same key, description, provider states, request, response, comments, pending flag, plugin configuration, markup and transport. Only empty comments and the case of the method may be normalised.",
  ["inputs"], "every V4 HTTP interaction: any field values, any combination of present and absent parts", RT_WHY,
  ["pact_models/src/v4/synch_http.rs", "pact_models/src/v4/http_parts.rs", "pact_models/src/v4/interaction.rs"],
  [("V4 HTTP interaction writer and reader", "pact_models/src/v4/synch_http.rs"), ("V4 request and response parts", "pact_models/src/v4/http_parts.rs")], VF, RT_NOTE)
P("P02", "V4 asynchronous and synchronous messages survive a write/read cycle",
  "A V4 asynchronous or synchronous message interaction written as JSON and read back has the same key, description, provider states, contents with metadata, matching rules and generators, every response in order, comments, pending flag, plugin configuration, markup and transport.",
  ["inputs"], "every V4 message interaction: any field values, any number of responses, any combination of present and absent parts", RT_WHY,
  ["pact_models/src/v4/async_message.rs", "pact_models/src/v4/sync_message.rs", "pact_models/src/v4/message_parts.rs"],
  [("message writers and readers", "pact_models/src/v4/async_message.rs"), ("message contents", "pact_models/src/v4/message_parts.rs")], VF, RT_NOTE)
P("P03", "V3 messages survive a write/read cycle",
  "A V3 message written as JSON and read back has the same description, provider states, metadata, matching rules and generators, and its contents keep their state: missing, null, empty and present contents stay apart. Present contents are written as the JSON they hold, as their text, or as base64 when they are neither.",
  ["inputs"], "every V3 message: any field values, any combination of present and absent parts", RT_WHY,
  ["pact_models/src/message.rs", "pact_models/src/provider_states.rs"],
  [("message writer and reader", "pact_models/src/message.rs"), ("provider states", "pact_models/src/provider_states.rs")], VF, RT_NOTE)
P("P04", "V2 and V3 request/response interactions survive a write/read cycle",
  "A request/response interaction written as JSON for a specification version and read back with that version has the same description, provider states, method, path, query, status, headers, matching rules and generators, and missing, null, empty and present bodies stay apart. Before V3 only the name of the first provider state can be written, and it must survive. A present body is written as the JSON it holds, as its text, or as base64 when it is neither.",
  ["inputs"], "every request and response, for each of the specification versions V1, V1.1, V2 and V3", RT_WHY,
  ["pact_models/src/sync_interaction.rs", "pact_models/src/request.rs", "pact_models/src/response.rs"],
  [("interaction writer and reader", "pact_models/src/sync_interaction.rs"), ("request", "pact_models/src/request.rs"), ("response", "pact_models/src/response.rs"), ("headers of V2/V3 parts", "pact_models/src/json_utils.rs")], VF, RT_NOTE)
P("P10", "Bodies in V4 documents keep their bytes, content type, hint and state",
  "A body written into a V4 document and read back has the same bytes, content type and content type hint, whether it is written as JSON, as text or as base64, and missing, null, empty and present bodies stay apart. Bytes that are not text are written as base64.",
  ["inputs"], "every body: any bytes, content type and hint", "The tests cover a few bodies; the guarantee is for every combination of encoding, content type and hint.",
  ["pact_models/src/bodies.rs", "pact_models/src/v4/http_parts.rs"],
  [("body writer", "pact_models/src/bodies.rs"), ("body reader", "pact_models/src/v4/http_parts.rs")], VF,
  RT_NOTE + " An absent and a null body are both written as null or left out, which the reader of the part tells apart by the presence of the attribute.")
P("P05", "Whole pacts survive a write/read cycle",
  "A pact written as JSON for its specification version and read back, by either loader, is of the same kind and has the same consumer, provider, interactions in order, metadata and plugin data. Each interaction is read back as the type it was written as.",
  ["inputs"], "every V3 request/response pact, message pact and V4 pact: any number of interactions of any type, any metadata", RT_WHY,
  ["pact_models/src/pact.rs", "pact_models/src/v4/pact.rs", "pact_models/src/sync_pact.rs", "pact_models/src/message_pact.rs"],
  [("V4 pact writer and reader", "pact_models/src/v4/pact.rs"), ("request/response pact", "pact_models/src/sync_pact.rs"), ("message pact", "pact_models/src/message_pact.rs"), ("loading by version", "pact_models/src/pact.rs")], VF,
  RT_NOTE + " Metadata keys are decided by class: each constant key the code compares with, plus an arbitrary other key.")
P("P11", "Converting between interaction types keeps what both can express",
  "Upgrading a V2/V3 interaction, message, request or response to V4, or converting a V4 one down to V3, keeps the description, provider states, bodies or contents, headers or metadata, matching rules and generators. An upgrade followed by the matching downgrade gives the original back.",
  ["inputs"], "every interaction, message, request, response and pact of every type", "The tests convert a few values; the guarantee is for every field of every value.",
  ["pact_models/src/v4/synch_http.rs", "pact_models/src/v4/async_message.rs", "pact_models/src/v4/http_parts.rs", "pact_models/src/v4/message_parts.rs", "pact_models/src/message.rs", "pact_models/src/sync_interaction.rs"],
  [("V4 interactions", "pact_models/src/v4/synch_http.rs"), ("message conversion", "pact_models/src/message.rs"), ("request/response conversion", "pact_models/src/sync_interaction.rs"), ("parts", "pact_models/src/v4/message_parts.rs")], VF,
  "Each conversion is interpreted for an arbitrary source value and each target field compared with the source field it must come from; values that cannot be resolved are left open, not alarmed.")
P("P19", "Interactions and pacts seen through their common interface show what they hold",
  "Through the common interaction and pact interfaces every getter returns, and every setter changes, exactly the attribute it names, on every interaction and pact type. Views and copies of an interaction hold the same contents as the original, and cloning or displaying one never fails.",
  ["inputs"], "every interaction and pact type, every method of the interfaces, any field values", "Unit tests call a few methods on a few types; the guarantee is for every method of every implementation.",
  ["pact_models/src/interaction.rs", "pact_models/src/v4/interaction.rs", "pact_models/src/v4/synch_http.rs", "pact_models/src/v4/async_message.rs", "pact_models/src/v4/sync_message.rs", "pact_models/src/sync_interaction.rs", "pact_models/src/message.rs"],
  [("interaction interface", "pact_models/src/interaction.rs"), ("V4 interaction interface", "pact_models/src/v4/interaction.rs"), ("implementations", "pact_models/src/v4/sync_message.rs")], VF,
  "Each method is interpreted on an arbitrary receiver and its result, or the receiver's final state, compared with the attribute it names. Attributes a type does not have must come back empty.")
P("P06", "Matching rules survive a write/read cycle",
  "Every matching rule written as JSON and read back is the same rule, whatever its parameters; so is the rule created from its type name and its values. Every spelling of a rule that the pact specifications define is read as the rule it means, and rules are written with the specified spelling.",
  ["inputs"], "every matching rule type with every structure of its parameters", "The tests read and write one example of each rule; the guarantee is for every parameter value and structure.",
  ["pact_models/src/matchingrules/mod.rs", "pact_models/src/matchingrules/expressions.rs", "pact_models/src/json_utils.rs"],
  [("matching rule writer, reader and factory", "pact_models/src/matchingrules/mod.rs")], VF, RT_NOTE)
P("P07", "Generators survive a write/read cycle",
  "Every generator written as JSON and read back is the same generator, whatever its parameters; so is the generator created from its type name and its written attributes. It is written with the type name that the specification defines.",
  ["inputs"], "every generator type with every structure of its parameters", "The tests read and write one example of each generator; the guarantee is for every parameter value and structure.",
  ["pact_models/src/generators/mod.rs", "pact_models/src/expression_parser.rs"],
  [("generator writer, reader and factory", "pact_models/src/generators/mod.rs")], VF, RT_NOTE)
P("P08", "Sets of matching rules and generators survive a write/read cycle",
  "A set of matching rules or generators written into a document and read back holds the same rules and generators under the same category and path, in the same order and combined by the same logic. This holds for every category, for header and parameter names of any form, and, for one rule per path, for the older flat format too.",
  ["inputs"], "every category and specification version, any path or name, one or two rules per path", "The tests read and write a few hand-made sets; the guarantee is for every category, path and name.",
  ["pact_models/src/matchingrules/mod.rs", "pact_models/src/generators/mod.rs"],
  [("sets of matching rules", "pact_models/src/matchingrules/mod.rs"), ("sets of generators", "pact_models/src/generators/mod.rs")], VF,
  RT_NOTE + " Lists of at most two rules per path; names by class (plain, with a space, with a dot, equal to a keyword of the format); body paths as an arbitrary text after the root.")

P("P09", "Names written for statuses, versions and categories are read back as themselves",
  "Every name the library writes for a specification version, matching rule category, generator category, HTTP status class, interaction type, content type hint or markup type is read back as the value it was written for. No two values share a name.",
  ["inputs"], "every value of each enumerated type, and every name the specifications define for it", "The tests check a few names; the guarantee is for each one, in both directions.",
  ["pact_models/src/lib.rs", "pact_models/src/matchingrules/mod.rs", "pact_models/src/generators/mod.rs", "pact_models/src/v4/interaction.rs", "pact_models/src/content_types.rs"],
  [("specification versions", "pact_models/src/lib.rs"), ("categories", "pact_models/src/matchingrules/mod.rs"), ("interaction types", "pact_models/src/v4/interaction.rs")], VF,
  "Enumerates every variant and every accepted spelling through the writers and readers.")
P("P21", "Specification versions are recognised, ordered and dispatched correctly",
  "The specification version of a document is found wherever the specifications allow it to be written, and versions are ordered by release. A document is loaded by the reader for the version it declares.",
  ["inputs"], "every specification version and every place and form in which a document may declare it", "The tests load a handful of documents; the guarantee is for every version and form.",
  ["pact_models/src/lib.rs", "pact_models/src/pact.rs", "pact_models/src/sync_pact.rs", "pact_models/src/v4/pact.rs"],
  [("version recognition", "pact_models/src/lib.rs"), ("loading by version", "pact_models/src/pact.rs")], VF,
  "Interprets the recognisers on every declared form and the loaders on a document of each version.")
P("P23", "Paths built from names and indexes read back as themselves",
  "A path built from names and indexes holds exactly those parts, and the expression it displays is read back as the same path, whatever characters the names contain. The parser accepts exactly the path expressions of the documented grammar and answers anything else with an error, never a panic.",
  ["inputs"], "every name by class of character and every expression up to a length", "The tests build and parse a few paths; the guarantee is for every name, including quotes, spaces, dots and non-ASCII letters.",
  ["pact_models/src/path_exp.rs"], [("path parser, builder and display", "pact_models/src/path_exp.rs")], VF,
  "Strings are tuples of character classes; every string of classes up to length 3 after the root (4 with --thorough) goes through the parser and is compared with a reference grammar.")
P("P27", "The most specific matching rules are the ones applied",
  "For a concrete value, the rules applied are those of the matching path with the greatest weight, where a named part or index outweighs a wildcard, and they are marked as inherited when the path is that of a parent. Rules of the wrong category never apply, and the choice does not depend on the order in which rules happen to be stored.",
  ["inputs", "histories"], "families of paths and concrete values covering every kind of path part, for every order of the rules", "The tests sample some pairs of rule and path; the guarantee is for every combination and map order.",
  ["pact_models/src/matchingrules/mod.rs", "pact_models/src/path_exp.rs"], [("rule selection", "pact_models/src/matchingrules/mod.rs"), ("path weight", "pact_models/src/path_exp.rs")], VF,
  "Sets of up to three rules over a family of eleven paths, in both iteration orders of the map; path lengths up to three.")
P("P28", "Editing sets of matching rules keeps every rule",
  "Adding, merging, renaming, copying or filtering sets of matching rules keeps every rule of the operands, in order and with its logic, under its category and path. Questions about a set or a rule (empty, type rule, rule on values, inherited) are answered from every rule it holds.",
  ["inputs"], "every kind of rule, and sets of zero to two categories, paths and rules", "The tests add one or two rules; the guarantee is for every shape of the operands.",
  ["pact_models/src/matchingrules/mod.rs"], [("editing of rule sets", "pact_models/src/matchingrules/mod.rs")], VF,
  "Lists of up to two rules, categories of up to two paths, sets of up to two categories, in both iteration orders of the maps.")
P("P18", "Headers and content types are found whatever the case of their names",
  "A header is found or set by its name whatever the case it was written in, and setting or adding one leaves the other headers as they are. The content type of a request, response or message comes from its body when that declares one, else from its content type header or metadata entry, else from the content of the body, and asking for it never panics.",
  ["inputs"], "every combination of header or metadata entry, its case and form, and body state, in every order of the map", "The tests look up a few headers in one spelling; the guarantee is for every spelling, form and map order.",
  ["pact_models/src/http_parts.rs", "pact_models/src/headers.rs", "pact_models/src/message.rs", "pact_models/src/v4/http_parts.rs", "pact_models/src/v4/message_parts.rs"],
  [("headers of requests and responses", "pact_models/src/http_parts.rs"), ("content type of messages", "pact_models/src/message.rs")], VF,
  "The content type parser is taken as a boundary (it is decided by another property); up to two headers, names in several spellings, both iteration orders of the map.")
P("P22", "Query strings are decoded and encoded without loss",
  "Decoding a query string turns every escape of the UTF-8 form of a text back into that text and leaves anything that is not an escape as it is, without panicking. A query parsed from text keeps the names, the order of repeated values, and the difference between an empty and a missing value, and a query built or written in any pact file form is read back as the same query.",
  ["inputs"], "every character alone and in context, and queries with repeated, missing, empty and special names and values", "The tests decode and build a few queries; the guarantee is for every character, shape and map order.",
  ["pact_models/src/query_strings.rs"], [("query strings", "pact_models/src/query_strings.rs")], VF,
  "Every ASCII character and eight wider ones between arbitrary letters; queries of up to four parameters. That encoding is wrong for characters that are not ASCII is pinned by an existing test and recorded as a known finding.")
P("P30", "Content types are read, written, compared and detected correctly",
  "A content type written as text is read back as the same type, and text that is no content type is refused. Whether a type is JSON, XML, a form, text or binary, and whether two types are equivalent, is answered from its main type, sub type, suffix and attributes as documented, and the type detected for a body is that of the document it starts with, whatever white space precedes it and wherever the header examined happens to end.",
  ["inputs"], "every shape of a content type with arbitrary letters, a table of main types, sub types and suffixes, and every kind of beginning of a document", "The tests parse and detect a few samples; the guarantee is for every shape, combination and cut.",
  ["pact_models/src/content_types.rs"], [("content types", "pact_models/src/content_types.rs")], VF,
  "The mime grammar of the library is modelled; names are words of character classes, up to two attributes in both iteration orders; detection reads documents of up to 40 bytes.")
P("P13", "Merging pacts keeps every interaction",
  "Merging two pacts of the same consumer and provider gives a pact with every interaction of both, in whatever order they are, where those with the same key, or with the same description, provider state names and kind, become one: in a V4 pact that of the first, otherwise that of the second. Pacts of different parties, or with conflicting requests (method, path or query) or response statuses, are refused, and merging keeps the other fields and joins the data of plugins.",
  ["inputs", "histories"], "every pair of lists of up to two interactions over a family of descriptions, provider states, keys and kinds, for every pair of pact types", "The tests merge a few pacts that happen to be in order; the guarantee is for every order and content.",
  ["pact_models/src/sync_pact.rs", "pact_models/src/message_pact.rs", "pact_models/src/v4/pact.rs", "pact_models/src/sync_interaction.rs"],
  [("merging of pacts", "pact_models/src/sync_pact.rs"), ("merging of V4 pacts", "pact_models/src/v4/pact.rs")], VF,
  "Lists of up to two interactions over four identities (six with --thorough); texts are concrete representatives of each relation.")
P("P33", "Pacts keep their interactions, plugins and metadata",
  "A pact returns the interactions, parties and plugins it was given, answers which kinds of interactions it holds, and carries its metadata through reading, writing, upgrading and downgrading, with the version of the specification and of the tools brought up to date. Downgrading a pact keeps exactly the interactions the older format can hold, or is refused.",
  ["inputs", "histories"], "pacts of every type with up to three interactions of every kind, every form of metadata and plugin data, in every order of the maps", "The tests use one or two interactions; the guarantee is for every mixture and form.",
  ["pact_models/src/pact.rs", "pact_models/src/sync_pact.rs", "pact_models/src/message_pact.rs", "pact_models/src/v4/pact.rs"],
  [("V4 pacts", "pact_models/src/v4/pact.rs"), ("V1 to V3 pacts", "pact_models/src/sync_pact.rs")], VF,
  "Lists of up to three interactions; texts are concrete representatives.")

P("P34", "Provider states are read and written in every documented form",
  "Provider states are read from every form the specifications give them, a list of objects, a single name or the older attribute, in order and with all their parameters whatever the values of those are. A provider state written as JSON is read back as the same state, and only an empty or missing name means that there is none.",
  ["inputs"], "every provider state: any name, any number and kind of parameters, every documented form", "The tests read a few documents; the guarantee is for every name, every kind of parameter value and every form.",
  ["pact_models/src/provider_states.rs"], [("provider state reader and writer", "pact_models/src/provider_states.rs")], VF,
  "Interprets the reader on each documented form with arbitrary names and parameter values of each JSON kind, and composes the writer with the reader. Trusts the transfer functions of std and serde_json.")

P("P12", "Equality and hashing agree",
  "Two values of the model (matching rules, generators, bodies, provider states, paths, requests, responses, messages and interactions) compare equal exactly when the contents that are part of the comparison are equal, whichever side they stand on, and equal values hash alike whatever the order of the maps they hold. The key generated for an interaction is its own key or else a hash that depends on every part of its description, states and contents, the same on every run.",
  ["inputs"], "values of every variant of every type, differing in any one field of arbitrary contents, in every order of their maps", "The tests compare and hash a few samples, once; the guarantee is for every variant, field and map order.",
  ["pact_models/src/matchingrules/mod.rs", "pact_models/src/generators/mod.rs", "pact_models/src/bodies.rs", "pact_models/src/provider_states.rs", "pact_models/src/path_exp.rs", "pact_models/src/request.rs", "pact_models/src/response.rs", "pact_models/src/v4/http_parts.rs", "pact_models/src/v4/async_message.rs", "pact_models/src/v4/sync_message.rs", "pact_models/src/v4/synch_http.rs", "pact_models/src/v4/message_parts.rs", "pact_models/src/json_utils.rs"],
  [("equality and hashing of rules and generators", "pact_models/src/matchingrules/mod.rs"), ("equality, hashing and keys of interactions", "pact_models/src/v4/synch_http.rs")], VF,
  "Fields are compared with arbitrary contents one at a time; maps hold up to two entries; what is hashed is the sequence of values written to the hasher, so collisions of the hash function itself are outside.")

P("P36", "Expressions in texts are replaced by their values",
  "Each ${name} in a text is replaced by the value of that name, wherever it stands and whatever surrounds it, and a text that is only one expression has that value with its type. A name without a value or an expression without an end is an error, and values are converted to the type asked for exactly when they have one of that type.",
  ["inputs"], "every text over the characters that matter, sequences of names and texts, and every conversion of every kind of value", "The tests replace a few expressions; the guarantee is for every arrangement of delimiters and every kind of value.",
  ["pact_models/src/expression_parser.rs"], [("expressions and typed values", "pact_models/src/expression_parser.rs")], VF,
  "Texts of up to five of the characters that matter and three pieces; values replaced are arbitrary.")

P("P26", "Matching rule definitions follow the documented grammar",
  "A matching rule definition of the documented grammar is read as the value, type, rules, reference and generator that grammar gives, whatever its strings and numbers, however it is spaced, and however definitions are combined or nested; the value, type and rules of combined definitions are those of all of them. A text that is not of the grammar, including one with anything left after a definition, is refused with an error.",
  ["inputs"], "every definition of the grammar over strings and numbers of every kind, and each with a part left out, doubled, exchanged or replaced", "The tests read a few dozen definitions; the guarantee is for every combination of forms, strings and numbers, and for everything that is not a definition.",
  ["pact_models/src/matchingrules/expressions.rs"], [("matching rule definition parser", "pact_models/src/matchingrules/expressions.rs")], VF,
  "The token automaton is read out of the compiled lexer; strings and numbers are over character classes; up to three combined definitions and two levels of nesting. What a quote escaped in a string stands for, strings ending in a backslash and booleans from provider states are left open.")
P("P25", "Date and time expressions lead where the documentation says",
  "A date, time or date-and-time expression of the documented grammar leads from any date and time to the one it describes: bases, clock hours, amounts added and taken away, the next or last unit, weekday or month. An expression that is not of the grammar, has anything left after it, or leads outside the range of dates is refused with an error, never with a panic.",
  ["inputs"], "every expression of the grammar with amounts of every size, from every place in the calendar and every time of day, and each with a word left out, doubled, exchanged or replaced", "The tests evaluate some forty expressions from one instant; the guarantee is for every start and every expression.",
  ["pact_models/src/generators/datetime_expressions.rs", "pact_models/src/generators/date_expression_parser.rs", "pact_models/src/generators/time_expression_parser.rs"],
  [("date and time expressions", "pact_models/src/generators/datetime_expressions.rs")], VF,
  "The parts of the clock are arbitrary where the expression does not depend on them; starts are dates of every month, weekday and month length around leap years; the day a month adjustment ends on when the month is too short, and time zones with clock changes, are left open.")
P("P14", "Bodies answer what they hold",
  "A body answers for its state, bytes, content type and hint as it was made, whatever its state; it is given as text exactly when its hint, or without a hint its content type, says that it is text and its bytes are UTF-8, and bytes are shown as two hexadecimal digits each. Bodies made from texts and JSON values hold those, and changing the content type changes nothing else.",
  ["inputs"], "every state of a body, with any bytes, content type and hint", "The tests ask a few bodies; the guarantee is for every state, type and hint together, and for all bytes.",
  ["pact_models/src/bodies.rs"], [("body states", "pact_models/src/bodies.rs")], VF,
  "Bytes, types and hints are arbitrary; bytes shown are lists around the limit of those shown, of each number of digits. Whether a content type is textual is decided by another property.")

P("P24", "Generators produce values of the kind they describe, where they are meant",
  "A value generated is of the type, length, range, characters and format its generator describes whatever is drawn at random; provider state and mock server values are those of the context, or an error if it has none. In JSON documents and forms exactly the values that the path of a generator leads to are replaced.",
  ["inputs"], "every kind of generator with small, large and impossible settings, every outcome of the random draws at the ends, the middle and next to them, every kind of path into documents", "The tests draw a few values and look at their length; the guarantee is for every draw, setting and path.",
  ["pact_models/src/generators/mod.rs", "pact_models/src/generators/form_urlencoded.rs", "pact_models/src/generators/date_expression_parser.rs"],
  [("values of generators", "pact_models/src/generators/mod.rs"), ("generators in forms", "pact_models/src/generators/form_urlencoded.rs")], VF,
  "Random draws are free choices of the generator, taken at the ends of their range, its middle and next to the ends. What a regular expression or a date pattern produces is not claimed.")

P("P29", "Date and time patterns accept exactly the values they describe",
  "A date/time pattern is accepted exactly if its letters, their counts and its quoted texts are those of the documented table of symbols. A value matches it exactly if every part of the value is a number in range, a name, an offset or a zone that its symbol stands for, texts stand for themselves, the day exists in that month and year, and nothing is left over. The format string that values are generated with gives every supported symbol a form that the same pattern accepts.",
  ["inputs"], "every pattern letter in every count, alone and within patterns, with numbers in and around its range, arbitrary digits, letters and texts, every month, day, offset and leap year kind", "The tests try a few values of each symbol; the guarantee is for every value, count and combination.",
  ["pact_models/src/time_utils.rs"], [("pattern symbols", "pact_models/src/time_utils.rs"), ("checking values", "pact_models/src/time_utils.rs"), ("format strings", "pact_models/src/time_utils.rs")], VF,
  "Up to twelve letters in a row. Format strings are compared, what chrono writes for them is trusted. Weeks of the year 54 to 59, minutes of offsets with one digit, zone names with four letters and the symbols W, F, Q, O, V, z, A, N, K and k in generated values are left open.")

P("P20", "Checking the format of a pact file reports each problem where it is",
  "Checking the format of a pact file reports every part that has the wrong JSON type, every missing part, every deprecated name and every unknown attribute, each at its own place and naming the attribute or the types; and nothing else. Wrong types and versions are errors, deprecations are warnings, missing and unknown attributes are errors exactly if the check is strict.",
  ["inputs"], "every JSON type in every position of a pact file, missing, deprecated and unknown attributes together, for every specification version, strict and not", "The tests check three documents; the guarantee is for every shape of a document.",
  ["pact_models/src/verify_json.rs", "pact_models/src/lib.rs", "pact_models/src/sync_pact.rs", "pact_models/src/sync_interaction.rs", "pact_models/src/provider_states.rs", "pact_models/src/pact.rs"],
  [("pact and metadata", "pact_models/src/sync_pact.rs"), ("interactions", "pact_models/src/sync_interaction.rs"), ("provider states", "pact_models/src/provider_states.rs"), ("consumer and provider", "pact_models/src/lib.rs")], VF,
  "Contents of strings, numbers and booleans are arbitrary (names of attributes and versions are known ones). The contents of requests, responses and of V4 and message pacts are not looked at by the code, and nothing is claimed of them.")

P("P40", "A matching rule accepts exactly the values it describes",
  "Under each matching rule the actual text, number, boolean, bytes or JSON value is accepted exactly if the documented meaning of the rule says so: equality, regular expressions, types and lengths, number kinds, dates and times, versions, status codes, inclusion, null and non-empty values. Rules that are inherited from a parent do not check the lengths of inner lists, and no value makes a comparison panic.",
  ["inputs"], "every rule about single values with values of every kind around the boundaries of the rule, and arbitrary texts where the rule does not look at them", "The tests compare a few values under each rule; the guarantee is for every kind of value under every rule.",
  ["pact_matching/src/matchers.rs", "pact_matching/src/json.rs", "pact_matching/src/binary_utils.rs"], [("comparing values", "pact_matching/src/matchers.rs"), ("comparing JSON values", "pact_matching/src/json.rs")], VF,
  "Values are those of families around the boundaries of each rule. Left open: decimals without a fraction as text, not-empty of numbers, dates that are no texts, rules that make no sense for a kind of JSON value.")
P("P41", "Comparing JSON without rules reports exactly the places that differ",
  "When no matching rules are defined, comparing two JSON documents reports a difference at exactly the places where they differ: other kinds or values, missing entries, lists of other lengths, and, where unexpected entries are not allowed, additional ones.",
  ["inputs"], "every pair of a family of documents of every kind and nesting, with both settings for unexpected entries", "The tests compare some pairs of documents; the guarantee is for every combination of kinds at every depth.",
  ["pact_matching/src/json.rs", "pact_matching/src/lib.rs"], [("comparing documents", "pact_matching/src/json.rs"), ("unexpected and missing entries", "pact_matching/src/lib.rs")], VF,
  "Documents are those of a family of about fifty. Only the places are compared, not the words of the descriptions.")
P("P42", "Comparing JSON under rules reports exactly the places the rules refuse",
  "When matching rules are defined, comparing two JSON documents reports a difference at exactly the places that the rules refuse: the most specific rule of a place applies to it, places without one inherit the rule above them, several rules all have to hold or one of them as they are combined, and rules about each key, each value, the length or the contents of a collection apply to all of its entries.",
  ["inputs"], "every set of rules of a family, nested, overriding, wildcard and combined, with every document of a family and both settings for unexpected entries", "The tests compare a few documents under one rule; the guarantee is for rules that interact.",
  ["pact_matching/src/json.rs", "pact_matching/src/matchingrules.rs", "pact_matching/src/lib.rs", "pact_models/src/matchingrules/mod.rs", "pact_models/src/path_exp.rs"], [("comparing under rules", "pact_matching/src/matchingrules.rs"), ("rules of a place", "pact_matching/src/lib.rs")], VF,
  "Rule sets and documents are those of families. Of two rules of the same weight for one place, and of rules of maps combined with or, nothing is claimed.")

P("P50", "Verification fails exactly if the provider breaks an interaction",
  "Verifying a provider against a pact reports failure if and only if some selected interaction's response or message does not match, or its state change or request could not be performed; every interaction that was not filtered out is verified once, and the results that are published are those found.",
  ["schedules", "inputs"], "every pact, provider behaviour, filter, broker answer and order of completion", "The tests run a mock provider with a few pacts; the guarantee is for every provider and every failure on the way.",
  ["pact_verifier/src/lib.rs", "pact_verifier/src/provider_client.rs"], [("verification of interactions", "pact_verifier/src/lib.rs")],
  na="What is verified is what a provider answers at run time, through an HTTP client, an async runtime and plugins whose crates are not in this sandbox: the crate cannot be type-checked here, so no facts about it can be extracted, and the interesting part (network failures, order of completion) is not bounded by the source.")
P("P52", "Functions of the C interface are memory safe and never unwind",
  "Every exported C function, called with valid or null pointers, neither unwinds into the caller nor reads memory it does not own; what it hands out is freed exactly once by the matching function, and errors are reported through the result and the last error message.",
  ["inputs", "histories"], "every sequence of calls with valid, null and already freed handles and pointers", "The tests call functions in the order a consumer would; the guarantee is for every order and argument.",
  ["pact_ffi/src/lib.rs", "pact_ffi/src/mock_server/mod.rs", "pact_ffi/src/mock_server/handles.rs"], [("exported functions", "pact_ffi/src/mock_server/handles.rs")],
  na="The crate needs the mock server and verifier crates and their dependencies, which are not in this sandbox, so it cannot be type-checked and no MIR of it exists here; a check on its syntax alone could not tell which pointers are valid, and would be either unsound or noisy.")
P("P53", "Pact files written at the same time keep every interaction",
  "When several tests or processes write to the same pact file at the same time, the file always is a complete pact in the end that has the interactions of all of them; a crash while writing leaves either the old or the new file.",
  ["schedules", "crash_points"], "every interleaving of writers and every point at which one of them stops", "The tests write from a few threads of one process; the guarantee is for every interleaving and crash.",
  ["pact_models/src/pact.rs", "pact_models/src/file_utils.rs"], [("writing with locks", "pact_models/src/pact.rs")],
  na="Quantifies over interleavings of processes, the semantics of advisory file locks of the operating system and crash points between writes of one file; the code is only compiled for native targets, which the build here does not cover. A rule such as 'lock before truncate' would be about the form of the code, not the property. What the merged pact holds is decided by P05, P18 and P28.")
P("P54", "XML, multipart and plugin bodies are compared by their content",
  "Two XML documents, multipart bodies or bodies of a plugin's content type are compared element by element under their rules, independent of how they are serialised, and every difference is reported at its place.",
  ["inputs"], "every pair of documents, encodings, boundaries and rules", "The tests compare a few documents; the guarantee is for every document and serialisation.",
  ["pact_matching/src/xml.rs", "pact_matching/src/binary_utils.rs"], [("comparing XML", "pact_matching/src/xml.rs")],
  na="The documents are parsed by sxd-document, multer and plugin processes, none of which is in this sandbox; what a document means is decided by that code at run time, and a comparison over documents nobody parsed would say nothing about the property.")
P("P55", "The consumer DSL builds the pact its calls describe",
  "Every sequence of calls of the consumer DSL results in the pact whose interactions, values, matching rules and generators those calls describe, including nested patterns.",
  ["histories"], "every sequence and nesting of builder calls", "The tests build a few interactions; the guarantee is for every combination.",
  ["pact_consumer/src/builders/mod.rs", "pact_consumer/src/patterns/mod.rs"], [("builders", "pact_consumer/src/builders/mod.rs")],
  na="The crate depends on the mock server crates and their dependencies, which are not in this sandbox, so it cannot be type-checked here and no facts of it can be extracted.")
