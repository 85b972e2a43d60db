MBV = "TLA+ model checked by TLC; the real code is bound to it by replaying TLC's vectors and generated inputs and letting TLC judge every observation"

p("P01", "Merging pacts keeps every interaction exactly once",
  "Merging a pact with another one for the same consumer and provider gives a pact that holds every interaction of both exactly once (two interactions are the same when their description and provider state names agree, or for V4 when they have the same key), sorted by description and provider state names, with nothing invented; for an interaction both have, V4 keeps the one of the pact being merged, and V3 the one of the other (already written) pact, whose payloads must agree. "
  "Merging fails without effect when consumer or provider differ, when a V3 HTTP pact holds a contradicting interaction (same description and states, other method, path or status), or when the kinds of interactions can not be in one file. Plugin data of both V4 pacts is kept.",
  ["inputs", "histories"],
  "every pair and sequence of V3 request/response, V3 message and V4 pacts, in any order of interactions, with and without keys and provider states",
  "the tests merge a handful of pacts with one or two interactions; losing or duplicating an interaction depends on the order, sharing of descriptions, states and keys in both pacts",
  ["sync_pact.rs", "message_pact.rs", "v4/pact.rs", "interaction.rs"],
  [("merge", "sync_pact.rs RequestResponsePact::merge, message_pact.rs MessagePact::merge, v4/pact.rs V4Pact::merge"), ("conflict detection", "sync_interaction.rs conflicts_with")],
  MBV, "Merge.tla is explored exhaustively (pacts over 2 descriptions, 2 states, 2 keys, up to 2 interactions each, histories of merges) and every explored history is replayed into the code; random longer histories on top. Trusts the projection of an interaction to (kind, description, states, key, payload).")

p("P02", "Concurrent writers of a pact file lose nothing",
  "However processes writing and reading one pact file interleave, the outcome is as if each write and read had happened at once, one after the other: no interaction written by a successful call is lost, none is invented, a reader sees a complete pact, and an overwriting call replaces the content. "
  "A write that can not be merged with the file leaves the file as it was, as does a process that dies before it starts to change the file.",
  ["schedules", "crash_points"],
  "every interleaving, within a preemption bound, of the system calls of two or three processes writing (merging or overwriting) and reading one file, and a kill before every system call of a writer",
  "the unit tests write one file from one thread, or from threads whose schedule nobody controls",
  ["pact.rs", "file_utils.rs"],
  [("write_pact / read_pact", "pact.rs write_pact, read_pact"), ("file locking", "file_utils.rs with_read_lock, with_write_lock")],
  "TLA+ models of the locking protocol and of an atomic pact file, checked by TLC; real processes are run under every schedule within a preemption bound, and TLC decides whether each recorded history is linearizable",
  "Assumes advisory flock() semantics (Linux, local file system), that stop points at system calls on the file are the only relevant ones, and excludes a crash between truncation and the completed write.",
  [("pact file", "consumer and the set of interactions it holds")])

p("P03", "Writing and loading a pact file loses nothing",
  "Loading the JSON written for any pact (V3 HTTP, V3 message and V4, and V1/V2 HTTP) gives back the same content: names, descriptions, provider states, keys, pending, comments, plugin data, markup, transport, method (in upper case), path, query, headers, status, metadata, bodies (a JSON body as JSON) with their content type, matching rules and generators; "
  "and writing the loaded pact again gives the same JSON. "
  "What a format has no place for is not covered: in V1 and V2 state parameters, further states and generators; up to V3 a content type or hint that only the body has, bytes that are no text without a binary content type, a text under a JSON type that is no JSON, a null JSON text, and header values that are not as a header is split; in V4 a null body and comments without content; the id of an interaction, and several content types in one set of headers.",
  ["inputs"], "every pact representable in the model, including empty, null, text, JSON and binary bodies, multi-valued headers and query parameters",
  "the tests load and write example pacts; whether a body, header or rule survives depends on its content",
  ["pact.rs", "sync_pact.rs", "message_pact.rs", "v4/pact.rs", "v4/http_parts.rs", "v4/message_parts.rs", "request.rs", "response.rs", "message.rs", "bodies.rs", "http_parts.rs"],
  [("to_json / from_json", "v4/http_parts.rs, request.rs, response.rs, message.rs, v4/*.rs"), ("body encoding", "v4/http_parts.rs body_from_json, bodies.rs OptionalBody::to_v4_json")],
  MBV, "PactJson.tla writes and reads whole files; MC_PactJson shows that the stated conditions are sufficient (Survives) and necessary (Exact). Rules and generators are tokens here (P05, P11 decide their JSON); numbers with several JSON texts (exponents, more than 15 digits) are not modelled.")

p("P04", "Converting between specification versions keeps the meaning",
  "Converting an interaction or pact to the V4 model and back to its own model gives back the original; converting a V4 interaction to V3 keeps everything V3 can express (description, provider states, request, response, message contents and metadata, matching rules and generators), and what is written for V3 means the same as what is written for V4. "
  "A pact is written for an older version only if no interaction is left out, else that fails. Every interaction says truthfully what kind it is, and its copies, display and accessors work for every kind. Adding interactions, plugins and version information to a pact adds just these (a plugin that is there is merged), or fails where the pact's model has no place for them.",
  ["inputs", "histories"], "every V3 HTTP interaction, V3 message and V4 interaction, pacts of them in all versions, and sequences of additions",
  "the tests convert a few examples", ["interaction.rs", "sync_interaction.rs", "message.rs", "v4/synch_http.rs", "v4/async_message.rs", "v4/sync_message.rs", "v4/http_parts.rs", "v4/message_parts.rs", "v4/pact.rs", "sync_pact.rs", "message_pact.rs", "plugins.rs", "pact.rs"],
  [("conversions", "sync_interaction.rs as_v4, v4/synch_http.rs as_request_response, message.rs as_message_content, v4/async_message.rs as_message, v4/message_parts.rs as_v3_message"),
   ("forms of pacts", "as_v4_pact, as_request_response_pact, as_message_pact, to_json of v4/pact.rs, sync_pact.rs, message_pact.rs"), ("additions", "add_interaction, add_plugin, add_md_version"), ("copies and display", "interaction.rs Clone, Display")],
  MBV, "")

p("P05", "Matching rules survive JSON",
  "Every matching rule (with its attributes, nested rules, variants and generators), rule list with its AND/OR logic and set of categories survives being written as V3 or V4 pact JSON and loaded again; in V1 to V2 JSON the first rule of every body, header, query and path entry does. "
  "A rule loaded from JSON written by hand (any supported spelling of type and attributes) is the one the specification says, or an error, without crashing. A rule made again from its name and values is the same rule, and adding the rules of one set to another keeps the rules of both, in order.",
  ["inputs"], "every matching rule with every attribute value, nested and combined in lists and categories over all document path shapes and names",
  "the tests check single rules with sample values", ["matchingrules/mod.rs", "lib.rs"],
  [("rule JSON", "matchingrules/mod.rs MatchingRule::from_json, create, to_json, values"), ("category JSON", "matchingrules/mod.rs MatchingRuleCategory::to_v2_json, to_v3_json, add_v3_rules_from_json, load_from_v2_map, matchers_from_json, matchers_to_json")],
  MBV, "Rules.tla gives both directions; TLC checks that what it writes it reads back for all sets built of up to two (thorough: three) rules, and replays them. Larger sets and hand-written JSON are random. Header and query rules are per name (files can not hold an index); unresolved references are excluded.")

p("P06", "The most specific matching rule is selected",
  "For any way down into a document, the matching rules that apply in a category are those of the entry with the greatest specificity among the entries whose path expression matches it: each matching segment counts 2 when it is the same field or index (or the root) and 1 when it is a wildcard, an entry's specificity is the product of its segments times their number, and an entry longer than the way down does not match. "
  "A rule found on an ancestor is reported as cascaded, in body and metadata. The rules chosen (and those reported as applying at all) do not depend on the order in which the entries were added or on the run.",
  ["inputs", "histories"], "every set of entries (path expressions with fields, indices and wildcards) and every way down a document, in every insertion order",
  "the tests weigh a few chosen paths and see one insertion order", ["matchingrules/mod.rs", "path_exp.rs"],
  [("selection", "matchingrules/mod.rs MatchingRuleCategory::select_best_matcher, max_by_path, resolve_matchers"), ("weights", "path_exp.rs DocPath::path_weight, matches_path")],
  MBV, "Rule sets of up to two entries over all token paths of a small alphabet are enumerated by TLC and replayed with all three insertion orders; larger rule sets are random.")

p("P07", "Path expressions parse, print and address the same node",
  "Every path expression is either parsed into its segments (root, fields in dot or quoted bracket notation with escapes, indices, wildcards) or rejected with an error, without crashing. "
  "The text of a path built or changed by pushing, joining, appending, truncating or replacing segments with any non-empty field names and indices parses back to the same segments, and its JSON pointer, parent, first and last field, length and string list are those of its segments.",
  ["inputs", "histories"], "every string over the alphabet of path expressions up to a length, and every sequence of building operations with arbitrary field names",
  "the tests parse sample expressions", ["path_exp.rs"],
  [("parser", "path_exp.rs DocPath::new, parse_path_exp"), ("building and printing", "path_exp.rs push_field, push, join, join_index, join_field, parent, drop, as_json_pointer")],
  MBV, "All strings up to 4 characters over 13 characters and all paths of up to 2 tokens over 19 are replayed; the model itself is checked two sizes further. Empty field names are excluded (the documented grammar has none).")

p("P08", "Query strings survive encoding and decoding",
  "Encoding any map of query parameters (any non-empty Unicode names, each with one or more values, which may repeat or be empty) as a query string and parsing it gives the same map, whatever order the parameters were added in; so does writing a request for any specification version and loading it. Parsing any query string yields the pairs it encodes, with percent and plus decoding.",
  ["inputs"], "every map of parameters and every query string over an alphabet of reserved, escaped, control and non-ASCII characters",
  "the tests parse sample queries", ["query_strings.rs"],
  [("parse / build", "query_strings.rs parse_query_string, build_query_string, encode_query, decode_query")],
  MBV, "")

p("P09", "Matching definition expressions mean what the grammar says",
  "A matching definition expression is accepted exactly when it belongs to the documented grammar, and then yields the example value, type, rules, generator and references the grammar assigns to it (escapes in all strings alike); anything else is reported as an error, without crashing, and exactly the texts that begin with one of the six definition words are taken for a definition. Merging definitions keeps all rules in order, the first value and generator, and the most specific type. (Strings that are not closed, carriage returns between tokens and integers of more than 18 digits are not specified.)",
  ["inputs"], "every token sequence of the grammar up to a length, mutations of them and arbitrary text",
  "the tests parse sample expressions", ["matchingrules/expressions.rs"],
  [("parser", "matchingrules/expressions.rs parse_matcher_def")], MBV, "")

p("P10", "Provider state expressions are substituted exactly",
  "Every ${name} in an expression is replaced by the value the context has for it, everything else is kept as it is, and names without a value are an error; the result has the requested data type when the value can be represented in it, and anything else is an error (never a wrapped-around number or a crash).",
  ["inputs"], "every text over an alphabet of delimiters and names, every context of JSON values and every data type",
  "the tests substitute sample texts", ["expression_parser.rs", "generators/mod.rs"],
  [("substitution", "expression_parser.rs parse_expression, replace_expressions, DataType::wrap")], MBV, "")

p("P11", "Generators produce only values of their kind, only where they apply",
  "Applying a generator to a text, a number or a JSON value gives a value of its kind (bounds, number of digits or characters, regular expression, chosen UUID form, ISO date and time, value of the provider state, URL of the mock server) or, where there is none, an error, and never crashes; an invalid bound gives an error. Applied to a JSON document or a form, generators change exactly the values their paths address, only in the mode they belong to, and nothing else; a value whose generator fails is kept. Generators (but ArrayContains) survive being written as JSON and loaded again, and out of range or unusable attributes in JSON give the defaults. (The order of generators for overlapping places, and regular expressions that go beyond ASCII sets or have anchors inside, are not specified.)",
  ["inputs"], "every generator with every attribute value, every addressed path and document",
  "the tests generate single values, and random values differ from run to run", ["generators/mod.rs", "generators/form_urlencoded.rs", "v4/http_parts.rs"],
  [("values", "generators/mod.rs generate_value"), ("application", "generators/mod.rs apply_key, apply_generators"), ("JSON", "generators/mod.rs Generator::to_json, from_map")],
  MBV, "")

p("P12", "Date and time expressions compute the documented instant",
  "A date, time or date-time expression relative to a base gives the instant the documented grammar assigns to it (base, then each adjustment in turn; a month or year that has no such day gives its first or last day; 12 o'clock is noon); anything outside the grammar is an error, and no expression crashes. An expression of white space only is not specified.",
  ["inputs"], "every expression of the grammar up to several adjustments, on base dates across month ends, leap years and week days",
  "the tests evaluate sample expressions at one base date", ["generators/datetime_expressions.rs", "generators/date_expression_parser.rs", "generators/time_expression_parser.rs"],
  [("evaluation", "generators/datetime_expressions.rs execute_date_expression, execute_time_expression, execute_datetime_expression")], MBV, "")

p("P13", "Generated dates and times are accepted by their own pattern",
  "Every date and time (of the years 0 to 9999) that a generator or generate_string formats with a pattern (any but with names of zones) shows the fields the pattern letters stand for, of the instant that is the base moved by the expression, and is accepted by the validator for that pattern; text that does not have the form the pattern describes, or names a day its month does not have, is rejected. Unknown or too many pattern letters are an error, and no pattern or value crashes. (Where fields of digits of varying length follow each other directly, only texts that can not be read at all must be rejected.)",
  ["inputs"], "every pattern built from the pattern letters in every count and every instant of a representative set; mutations of valid values",
  "the tests validate sample values", ["time_utils.rs"],
  [("validation", "time_utils.rs validate_datetime"), ("formatting", "time_utils.rs format_datetime, generate_string; generators/mod.rs Generator::Date/Time/DateTime")], MBV, "Every pattern of one field in every count and of two fields (up to 4 letters, with and without a separator) is enumerated by TLC and replayed; zone ids and names only as fixed lists; time zones of fixed offset; day-of-year 357 to 366 is a known finding.")

p("P14", "Equal models hash alike, in every run, and different ones are not equal",
  "Two models (paths, provider states, rules, generators, sets of these, content types, bodies, message contents, requests, responses, interactions and pacts, V3 and V4) are equal exactly when they have the same content, whatever the order in which their maps were filled: not equal is the opposite of equal, equality is symmetric, and a clone is equal. Notes do not count: the type and the hint of a body, empty categories of rules and generators, the case of the method in a V4 request, and for V4 interactions the id, comments, plugin configuration, markup and transport. Pacts behind the Pact trait are compared in their V4 form. Equal models have equal hashes, and the hash of a model is the same every time it is built and in every process. The key calculated for a V4 interaction depends only on its description, states, parts and pending flag, and tells apart interactions that differ in one of these (for JSON values in the scalars they hold, for status code and each-key and each-value rules in the name only); a key the interaction has is its unique key, and giving an interaction its calculated key changes nothing else.",
  ["inputs", "histories"], "every pair of models, every order in which their parts are added, separate processes",
  "a test sees one insertion order and one hash seed", ["provider_states.rs", "matchingrules/mod.rs", "generators/mod.rs", "v4/interaction.rs", "bodies.rs", "v4/http_parts.rs", "v4/message_parts.rs", "path_exp.rs", "pact.rs"],
  [("hash and equality", "Hash and PartialEq in matchingrules/mod.rs, generators/mod.rs, provider_states.rs, request.rs, response.rs, bodies.rs, v4/*.rs; PartialEq for Box<dyn Pact> in pact.rs and for Box<dyn V4Interaction> in v4/interaction.rs"), ("key", "v4/*.rs calc_hash, with_key, unique_key, with_unique_key"), ("JSON", "json_utils.rs hash_json")], MBV,
  "What a hash must tell apart is one difference at a time: the code feeds nested JSON to the hash as a row of scalars, so that two differences may cancel out. Models are generated at random with one place changed, or reordered; orders of maps are those of the hash maps of two processes, seven builds each.")

p("P15", "Content types and headers are read as their grammar says",
  "A content type parses into its type, subtype, suffix and attributes, in lower case where their case does not matter, or is rejected; printing and parsing it again gives the same one. It is classed as JSON, XML, text or binary by its type, subtype and suffix only. "
  "The type of a body is the one it holds, else the one its header (or message metadata, whatever the case of the name) gives, else the one detected at the start of its content; detection, display and comparison never crash. "
  "Header values are split at commas except for the headers known to have a single value; header names are found whatever their case, and setting a header replaces the one with that name.",
  ["inputs"], "every content type over an alphabet of types, suffixes and attributes, every body (any bytes) and set of headers",
  "the tests look at sample types and bodies", ["content_types.rs", "headers.rs", "http_parts.rs", "bodies.rs", "message.rs", "v4/message_parts.rs"],
  [("content type", "content_types.rs ContentType::parse, Display, is_json, is_xml, is_text, is_binary, is_equivalent_to"), ("detection", "content_types.rs detect_content_type_from_bytes, detect_content_type_from_string, http_parts.rs content_type"),
   ("headers", "headers.rs parse_header, http_parts.rs lookup_header_value, set_header, has_header"), ("bodies", "bodies.rs OptionalBody")], MBV,
  "ContentType.tla parses, prints, classes and detects. Empty values and escapes in quotes, a missing subtype and names starting with a non-ASCII letter are not specified. One open finding: a quoted charset before more attributes (in the mime crate).")

p("P16", "Any document is read as what it says, or is an error",
  "Any JSON document given to the loader as a pact is either loaded or rejected with an error; it never crashes, hangs or exhausts memory. It is rejected exactly when it is not an object, an interaction of a V4 pact has no known type or no request and responses of the right type, a response status is not a number from 0 to 65535, or messages are not a list or are given for a version before V3; "
  "otherwise what is loaded is what the members of the document say, with defaults for those that are missing or of another type, in the format of the version in its metadata (V3 without one). "
  "(Matching rules and generators in other than the form they are written in, numbers with exponents, and versions that are not up to three numbers are not specified here: they only must not crash.)",
  ["inputs"], "valid pacts of every version with any part replaced, removed, duplicated, renamed or retyped",
  "the tests load well-formed files", ["pact.rs", "sync_pact.rs", "message_pact.rs", "v4/pact.rs", "v4/http_parts.rs", "request.rs", "response.rs", "message.rs", "provider_states.rs", "plugins.rs", "matchingrules/mod.rs", "generators/mod.rs"],
  [("loaders", "pact.rs load_pact_from_json, sync_pact.rs, message_pact.rs, v4/pact.rs from_json"), ("parts", "v4/interaction.rs interactions_from_json, request.rs, response.rs, message.rs from_json, provider_states.rs"), ("version", "lib.rs, pact.rs determine_spec_version")], MBV,
  "Load and LoadOk of PactJson.tla predict the pact every mutated document is read as.")

p("P17", "A JSON body matches its example as the rules say",
  "Comparing a JSON body with an example reports exactly the places at which it does not match: where no rule applies, the value is the one of the example (objects may have further members unless unexpected keys are refused; lists have the same length); where rules apply (the most specific entry whose path fits, also one above, which cascades), all of them have to accept the value, or one of them if they are combined with OR. "
  "A type rule asks for the same kind of value, and further list items follow the first of the example; sizes count for the list or object itself only; integer, decimal, number, boolean, null, semver, regex, include, date and time rules ask for what they name; values and eachValue rules ignore the keys, eachKey rules check them, arrayContains rules ask for every variant somewhere in the list. Reported is at least one mismatch exactly when the body does not match, and the order in which rules were added never matters.",
  ["inputs"], "every example and actual document, every set of matching rules on their paths (wildcards, nested definitions, several rules per path, AND and OR), with and without unexpected keys",
  "the tests compare sample documents with one or two rules; cascading, wildcards, combined and nested rules interact", ["rust/pact_matching/src/json.rs", "rust/pact_matching/src/matchingrules.rs", "rust/pact_matching/src/matchers.rs", "rust/pact_matching/src/lib.rs", "matchingrules/mod.rs", "path_exp.rs"],
  [("comparison", "rust/pact_matching/src/json.rs compare_json, compare_maps, compare_lists, compare_values"), ("rules", "rust/pact_matching/src/matchingrules.rs compare_maps_with_matchingrule, compare_lists_with_matchingrules, rust/pact_matching/src/matchers.rs"), ("context", "rust/pact_matching/src/lib.rs CoreMatchingContext")], MBV,
  "Match.tla computes the set of mismatching places. Regular expressions are those of the trees of Regex.tla (ASCII); content type rules and custom plugins are not modelled; an eachValue rule replaces more specific rules below it, and an entry without rules accepts any object, as in the code. pact_matching is built without plugins and with stand-ins for crates that need C code (onig) or the network.")

p("P18", "Verification of a pact file reports exactly what is wrong with its form",
  "Verifying the JSON of a request/response pact reports, each with its path and level, exactly: a document, consumer, provider, list of interactions, interaction, provider state or metadata of the wrong type (with the type found), a missing consumer, provider, name or description (an error when strict, else a warning) or state name, missing or empty interactions, names and descriptions that are no strings, attributes that are not known (an error when strict, else a warning), deprecated names, and versions that are missing, null or not valid. A file written by the library has nothing reported, even when strict; strict only raises levels. "
  "The JSON schema of a version accepts a document exactly when consumer and provider are objects with a name, interactions a list and the metadata, if there, an object with a version as text; so every request/response pact the library writes for that version. V4 and message pacts only have to be objects. Names of versions (V1 to V4, in any case) and version numbers (1.0, 1.1, 2.0, 3.0, 4.0 and their patches) are read as that version and anything else as unknown or an error.",
  ["inputs"], "any JSON document, strict or not, for every version",
  "the tests verify a handful of documents", ["verify_json.rs", "sync_pact.rs", "sync_interaction.rs", "provider_states.rs", "lib.rs", "pact.rs"],
  [("verification", "PactJsonVerifier::verify_json in sync_pact.rs, sync_interaction.rs, provider_states.rs, lib.rs, v4/pact.rs, message_pact.rs; pact.rs verify_metadata"), ("schema", "schema() in sync_pact.rs, sync_interaction.rs, lib.rs; pact.rs metadata_schema"), ("versions", "lib.rs PactSpecification::parse_version, From<&str>, version_str, Display")], MBV,
  "Verify.tla. Texts of messages are not compared but for the type they name; versions with other than digits are settled only for a few texts.")

p("P19", "A request, response or message matches when every part of it does",
  "Matching an actual request against an expected one reports exactly the parts that do not match: method (in any case), path, query parameters (values in order, none missing, none more), expected headers (names in any case, also in rules; space around values, and further headers and type parameters, do not matter) and body; a response its status, headers and body (further members are fine); a message its body and metadata; a synchronous message its request and every response at its place. "
  "Each part is compared as its matching rules say (several values of a parameter or header like a list), without rules exactly. A body is compared when content types agree (or one is not known, or a rule says so) as JSON, form, bytes or text; none expected means anything goes, an empty one that there is none. What is reported per part is complete: the parts that match, the overall result, and the score (one more for each part that matches, one less for each mismatch) agree with each other, and nothing crashes whatever the sizes.",
  ["inputs"], "every pair of requests, responses, messages and every set of rules for each of their parts",
  "the tests match sample requests with one rule each", ["rust/pact_matching/src/lib.rs", "rust/pact_matching/src/headers.rs", "rust/pact_matching/src/query.rs", "rust/pact_matching/src/form_urlencoded.rs", "rust/pact_matching/src/binary_utils.rs", "rust/pact_matching/src/matchers.rs", "rust/pact_matching/src/matchingrules.rs", "http_parts.rs", "query_strings.rs", "headers.rs"],
  [("whole", "rust/pact_matching/src/lib.rs match_request, match_response, match_message, match_sync_message, RequestMatchResult"), ("parts", "rust/pact_matching/src/lib.rs match_method, match_path, match_body, match_metadata, rust/pact_matching/src/headers.rs, query.rs"), ("bodies", "rust/pact_matching/src/lib.rs match_body_content, form_urlencoded.rs, binary_utils.rs, matchers.rs")], MBV,
  "Exchange.tla on Match.tla (P17). XML and multipart bodies, custom content matchers and generators are not modelled; of a form that does not match only that it does not is decided, not at which parameter.")

p("P20", "Verifying a provider asks for everything once, in order, and reports what was found",
  "Verifying a provider loads its sources (a pact, or the pacts of this provider in a directory and those below it), and verifies the interactions that the consumers and the filters on description and provider state select, each exactly once and in order, whatever happens to the others. "
  "For an interaction every provider state is set up (also when one of them failed), then the request is made once unless a state failed, and, if asked for, every state is torn down. States are set up by a call or a request to a URL, that is tried again only after a 5xx answer and only as often as allowed. "
  "The request goes to the transport the interaction names (else the usual one, else the provider itself) and has the path, query, headers and body of the pact, with provider state values (those setting up returned take precedence) in place; custom headers take the place of those with their name in any case; a filter sees it last. Messages are asked for with their description, states and request. "
  "The result is that of matching the answer (P19), or the error there was; it is successful exactly when every pact was loaded and every interaction that is not pending matched. The results, the lists of failures and of pending failures, the JSON form and the report say all the same, and the report marks exactly the parts that failed.",
  ["histories", "faults", "inputs"], "every answer, refusal or failure at every step, for any number of interactions and provider states",
  "the tests verify single interactions against a mock server that behaves", ["rust/pact_verifier/src/lib.rs", "rust/pact_verifier/src/provider_client.rs", "rust/pact_verifier/src/request_response.rs", "rust/pact_verifier/src/messages.rs", "rust/pact_verifier/src/callback_executors.rs", "rust/pact_verifier/src/verification_result.rs", "rust/pact_verifier/src/utils.rs"],
  [("run", "rust/pact_verifier/src/lib.rs verify_provider_async, verify_pact_internal, verify_interaction, execute_state_change, filter_interaction, fetch_pact"), ("calls", "rust/pact_verifier/src/provider_client.rs make_provider_request, make_state_change_request, create_native_request; callback_executors.rs HttpRequestProviderStateExecutor; utils.rs with_retries"),
   ("messages", "rust/pact_verifier/src/messages.rs verify_message_from_provider, verify_sync_message_from_provider"), ("report", "rust/pact_verifier/src/request_response.rs, messages.rs, lib.rs process_errors; verification_result.rs")], MBV,
  "Verifier.tla. reqwest and the async runtime are stand-ins that record every call and answer from a script, so that no connection is made; loading pacts from a broker or a URL, publishing results, plugins and colours are not modelled; the times in the report and the details of a mismatch are not compared, nor the text of an error for headers that can not be sent.")
