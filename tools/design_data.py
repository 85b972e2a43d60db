HOW = {
"P01": """
* **Model** `Merge.tla`: a pact is a sequence of interactions (kind, description, states, key, payload mark); merge is defined
  for the three models, with failure. `MC_Merge` explores every history of up to 3 merges over a small universe per model and checks
  NoDuplicates, Idempotent, NothingLost and the relation of every step to the declarative statement (RelHolds).
* **Binding**: every history of TLC's exploration (depth 2) and 6 000 (60 000) random longer histories are replayed through
  `Pact::merge`; each result is judged by `Tr_Merge`. About 30 s.
* **Beyond tests**: losing an interaction needs a particular order and sharing of descriptions, states and keys in both pacts.
""",
"P02": """
* **Model** `WritePact.tla`: processes with a program counter per step of the locking protocol (open, lock, read, merge, truncate,
  write, unlock) over one file; invariants: no lost update, readers see complete pacts. `PactFile.tla` is the atomic object.
* **Binding**: real processes run `write_pact`/`read_pact` under a scheduler (harness/sched.c, an
  LD_PRELOAD shim of the harness' own children that stops at each system call on the file); every schedule of 2 processes within the
  preemption bound, samples with 3, kills before every system call. TLC (`Tr_PactFile`) decides for each recorded history whether it is
  linearizable with respect to PactFile. 60 s quick; thorough runs all schedules of the bound.
* **Beyond tests**: nobody controls the schedule of a unit test.
""",
"P03": "See P05 for the rules; the rest of the document model in Pact.tla.",
"P04": """
* **Model** `Convert.tla` over PactJson: the V4 and V3 form of every interaction and pact, the form that is written for a version, what an
  interaction says of itself, and the steps by which a pact grows. `MC_Convert` checks over the interactions of MC_PactJson: back and forth is the
  identity (Back, Forms), nothing is left out of what is written (Forms), V3 file and V4 file mean the same (Commutes: writing for V4, loading and
  converting down equals writing for V3 and loading); `MC_Convert_build` explores all sequences of 3 additions (kinds kept, plugins not repeated).
* **Binding**: random interactions of the five kinds through every conversion, copy, accessor and setter of the Interaction traits; random pacts
  of the three models through all forms, `to_json` of every version and up to 4 additions; V3 pacts through both files. 35 s.
* **Beyond tests**: a loss shows with a particular kind, version and field together.
""",
"P05": """
* **Model** `Rules.tla`: rules, lists, categories and their V2/V3/V4 JSON in both directions (RuleJson, ReadRule, V3Json, V2Json,
  ReadRules, AddRules). `MC_Rules` builds sets rule by rule (2, thorough 3) and checks that what it writes it reads back.
* **Binding**: TLC's sets, random larger ones, hand-written JSON (all spellings, wrong types), `create(name, values)`, `add_rules`:
  what the code writes, reads and makes is compared with the model's JSON tree and rules by `Tr_Rules`. 60 s.
""",
"P06": """
* **Model** `Select.tla` over `Path.tla`: weight of an entry, best entries, cascading. `MC_Select` enumerates every set of up to two
  entries over all paths of up to 2 tokens and every way down of up to 4 segments.
* **Binding**: each enumerated set in several insertion orders through select_best_matcher / resolve_matchers; random sets with odd
  segment names. 26 s.
""",
"P07": """
* **Model** `Path.tla`: Parse, Render, and the building operations. `MC_Path` types every text of up to 4 (6) characters over 13 and builds
  every path of up to 2 (3) tokens over 19: Parse(Render(ts)) = ts, and so on.
* **Binding**: all of these, random expressions over 27 characters, random sequences of building operations. 40 s.
""",
"P08": """
* **Model** `Query.tla`, `Utf8.tla`: encoding and decoding by bytes. `MC_Query` types every string and builds every small map.
* **Binding**: parse/build, requests of every specification version to JSON and back, all insertion orders of the parameters. 30 s.
""",
"P09": """
* **Model** `MatchDef.tla`: tokens, escapes, semantic versions, grammar and meaning of definitions, and how definitions of one value merge.
  `MC_MatchDef` builds trees of definitions; written (with any blanks) they lex to their tokens and parse to their meaning (ReadBack), no token can
  be left out (Needed), merging is associative.
* **Binding**: TLC's definitions, every word, number, escape and version in every position, random definitions and mutations of them through
  parse_matcher_def and is_matcher_def; random definitions through merge. 35 s.
""",
"P10": """
* **Model** `Expr.tla`, `Num.tla`: substitution, data types, numeric texts as digit strings. `MC_Expr` types every text of up to 6 (8)
  characters over `$ { } a b`: text without expressions is kept, substitution is not repeated, is local, an unclosed one fails.
* **Binding**: these and random texts × contexts × data types, through parse_expression and through the generator. 25 s.
""",
"P11": """
* **Model** `Regex.tla` (regular expressions as trees: text, matching by end positions, and the words they describe), `Gen.tla` (which values a
  generator may give in place of a text, 16-bit number or JSON value; which documents and forms may result; JSON both ways). `MC_Gen_re` builds
  regular expressions and checks that matching and words agree (Language); `MC_Gen_doc` builds documents and attaches generators: addressed places
  exist and are those the path describes (Places1), an independent application is allowed and anything else is not (Possible).
* **Binding**: TLC's regular expressions, documents with generators, and random ones (odd keys, context values of every type, invalid bounds)
  through GenerateValue<String, Vec<String>, Value, u16>, JsonHandler and FormUrlEncodedHandler; random sets of generators to JSON and back, through
  create(name, values), and JSON with unusable attributes. 40 s. A generated value is judged by membership, as the values are random.
""",
"P12": """
* **Model** `Civil.tla` (calendar), `DateExpr.tla` (grammar and meaning). `MC_DateExpr` types expressions word by word; the grammar is given a
  second time as an automaton and must agree (Agree), and the meaning must be stable (Meaning).
* **Binding**: TLC's expressions and random ones over many bases (month ends, leap years). 40 s.
""",
"P13": """
* **Model** `DatePattern.tla`: pattern letters, Format and Accepts. `MC_DatePattern` builds patterns field by field: what is formatted is
  accepted (RoundTrip) and readable back (Readable).
* **Binding**: every pattern of one and two fields, common patterns, random ones × instants, zones, fractions; the clock is faked (clock_gettime in the
  executor) so that the generators' output is judged exactly; mutations of valid values. 45 s.
""",
"P14": """
* **Model** `Equal.tla`: the content of a model put together in any order (maps as sequences of pairs), equality of content, what a key may depend
  on (`Described`) and what a hash has to tell apart (`Apart`). `MC_Equal` builds two interactions step by step (every step of either side, 2 or 3
  of them) and checks that a hash that walks maps by key is the same for equal content, different when one part differs, and never asked for both;
  with `Walk = "filled"` TLC finds the order of filling in the hash at once (that was the code before its fix).
* **Binding**: pairs of 24 kinds of models: the same content in another order, one place changed (a leaf, an entry removed, a part of another model)
  or unrelated; each is built 7 times in each of 2 processes; equality both ways, inequality, clones, hashes and all ways to a key are judged. 30 s.
""",
"P15": """
* **Model** (ContentType.tla): the grammar of a content type (tokens, quoted values, suffix after the last plus, attributes sorted by name), its text, the
  four classes, equivalence, detection from the first 32 bytes (with UTF-8 cut inside a character), header splitting and lookup, bodies (text, display, hint)
  and the content type of a part. MC_ContentType: over every text of an alphabet of separators, letters and quotes, what parses prints and parses back
  (RoundTrip), classes depend on type and suffix only, and detection is stable under leading white space; TLC prints the texts as vectors.
* **Binding**: all vectors, the product of types × subtypes × suffixes, all pairs of attributes, random longer ones; every body × padding for detection;
  random requests, responses and messages (V3, V4) with bodies and headers of any case; header histories (set, add, look up). 16 s.
""",
"P03": """
* **Model** JsonText.tla (JSON text both ways) and PactJson.tla: what is written for a pact in each version of the specification (bodies, encodings and hints,
  headers, query strings, states, metadata, interactions sorted in V4), what any document is read as, and LossFree, the condition under which nothing is lost.
  MC_JsonText: printing and parsing agree on every text of an alphabet of JSON. MC_PactJson: one interaction of every kind with every body × content type ×
  hint × header, query strings, states and metadata: LossFree pacts come back the same and are written the same again (Survives), and every pact that
  is not LossFree really is changed (Exact), so the condition is not too strong.
* **Binding**: every content type × body text or bytes in random interactions of every kind, and random pacts (with matching rules and generators that have
  one JSON form) through to_json and load_pact_from_json; TLC compares the JSON with PactToJson, the loaded pact with Load and with the
  pact written. About half of the random pacts are LossFree; of the others only that nothing crashes is decided. 35 s.
""",
"P16": """
* **Model** (PactJson.tla): LoadOk (which documents are pacts) and Load (the pact any document is read as: defaults, spellings, versions, both forms of
  provider states, queries, headers and bodies). The model of P03 is its sanity check: what is written is LoadOk and Load of it is the pact written.
* **Binding**: documents written by the code for random pacts, mutated up to three times (any node replaced, removed, renamed, duplicated, or retyped; members
  of any name added; also inside of matching rules and generators), and every member alone with every kind of value, through load_pact_from_json; TLC decides
  whether an error or which pact was to be expected, and what the pact is written as. Inside rules and generators only crashes are decided. 45 s.
""",
"P17": """
* **Model** (Match.tla on Select.tla, Regex.tla, DatePattern.tla, JsonText.tla): M(place, example, actual, rules, strict) is the set of places that do not
  match. MC_Match: over every pair of small documents and every entry of rules (two in the thorough tier): without rules strict matching is equality
  (Exact) and open matching is embedding (Open); equality at the root is equality; the type rule at the root is Shape; strict implies open; every mismatch is
  at a place of one of the documents; a rule that fits no place changes nothing; an object or list only matches one.
* **Binding** (harness_m): TLC's pairs and rules, and random documents (3 levels, odd keys: empty, digits, `*`, `[*]`, quotes) with mutated actual documents and up to
  four entries of up to three rules each, with wildcards and nested definitions, through pact_matching::json::compare_json, with the rules built three times
  (hash seeds); TLC compares the set of reported paths with Mismatches. 30 s.
""",
"P18": """
* **Model** (Verify.tla on PactJson.tla): CheckFile (the bag of path, level and type that is reported), SchemaOk, an evaluator of JSON Schema (type,
  properties, required, additionalProperties, items, $ref), ParseVersion. MC_Verify puts documents together member by member: what PactToJson writes has nothing
  reported (InOrder), strict only raises levels (Raised), nothing reported means accepted by the schema (Accepted) and no error means it loads (Loads),
  what the schema refuses has something reported (Rejected).
* **Binding**: written pacts, every member with every kind of value, mutated documents, strict or not, in every version, through verify_json; the schema
  the code gives is evaluated by TLC on the same document. Version texts through parse_version, From and version_str. 30 s.
""",
"P19": """
* **Model** (Exchange.tla on Match.tla, ContentType.tla, Query.tla): RequestM, ResponseM, MessageM and SyncM are the sets of parts that do not match; ScoreOf the
  score. MC_Exchange takes every pair of small requests that differ in one part, under no rule or one: a request matches itself (Reflexive), without rules only
  what is the same matches (Exact), each part is judged on its own (Apart), further headers never matter and further parameters always do, the case
  of header names does not, an expected header less makes nothing else wrong, the best score means a match (TopScore), a response is never stricter (Resp).
* **Binding** (harness_m): TLC's pairs with their rules, and random requests, responses, messages (V3, V4) and synchronous messages: several values per name, odd names, every
  content type (charset, suffix, not a type), bodies of every kind, rules (AND, OR, nested, wildcards, by position) for every part, up to 70 headers and
  parameters, through match_request, match_response, match_message, match_sync_message; TLC compares the parts, all_matched, method_or_path_mismatch and score. 60 s.
""",
"P20": """
* **Model** (Verifier.tla on Exchange.tla, Expr.tla, ContentType.tla): a state machine: Start, Call (what it asks the outside world for, if anything), Advance (what it
  makes of the answer); phases begin, setup, request, teardown; and Report, the lines it prints. MC_Verifier lets the outside world answer in every way (right, wrong, 404, 503, connection cut,
  state handler failed) for every shape of one interaction with up to two states (two interactions with one; thorough: two with two, one with three states and retries) over calls, no URL, one attempt, two attempts: order (InOrder), one
  result each (OneResult), request exactly once after a full set up and never otherwise (RequestOnce), all states set up (AllSetUp) and torn down (AllTornDown), attempts (Tries,
  AgainOnly), outcomes (Truth), verdict (Verdicts), lists (Listed), values of states in the request (Injected); liveness: every run ends (Terminates).
* **Binding** (harness_v: the real pact_verifier with stand-ins for reqwest, tokio and what needs the network): every complete behaviour of the first model and a sample of
  the second (thorough: all) is replayed into verify_provider_async with its answers, and random runs (1 to 3 pacts of V3, message and V4, in texts, files and directories, filters, consumers, transports, custom headers, generators,
  request filter, all answers with mutations); TLC runs the machine on the same answers and compares calls, results, failures, JSON and every line of the report. 70 s.
""",
}
