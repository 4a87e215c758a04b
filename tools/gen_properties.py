#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "No memory error, undefined behaviour or hang on any grammar and input",
  "Whatever well-founded grammar (no left recursion) an application builds through the public API and whatever token vector, command line, configuration or callback result it then feeds in, every library call terminates without reading or writing outside live objects, without using freed memory, and without undefined behaviour. This includes recursive grammars, nullable repetitions, empty vectors and empty, very long or binary strings.",
  ["inputs", "programs", "histories"],
  "for every sequence of documented API calls, every grammar graph (shared or cyclic) and every input text",
  "The unit tests drive about thirty hand-written grammars with a handful of short tokens; memory errors and non-termination live in combinations (nullable child under repetition, re-entrant grammar, tokens at buffer limits) they never sample.",
  ["src/ecoli_*.c"],
  [("generic parse/complete drivers", "src/ecoli_parse.c, src/ecoli_complete.c"),
   ("per-node parse/complete callbacks", "src/ecoli_node_*.c"),
   ("lexers and containers", "src/ecoli_strvec.c, src/ecoli_htable.c, src/ecoli_vec.c")],
  observe=["sanitizer reports", "process exit", "per-case CPU budget"])

p("C02", "Every allocation is released exactly once through the registered allocator",
  "Once an application has released every object it obtained from the library, nothing allocated on its behalf remains, and no block is ever released twice or while still in use. All memory the library hands out or takes back goes through the allocator the application registered, so that documented release functions and an application-supplied allocator can be combined safely.",
  ["histories", "programs", "inputs"],
  "for every history of create / share / parse / complete / configure / free operations, on success and on error paths",
  "Tests free what they create on a few straight-line histories with the default allocator; ownership errors appear on error paths, shared sub-graphs and less used helpers, and a foreign free is invisible when the default allocator is in use.",
  ["src/ecoli_malloc.c", "src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_config.c", "src/ecoli_string.c", "src/ecoli_editline.c", "src/ecoli_yaml.c"],
  [("allocation wrappers", "src/ecoli_malloc.c: __ec_malloc, __ec_free, __ec_realloc, __ec_strdup"),
   ("ownership transfer rules", "include/*.h, all constructors and setters")],
  observe=["registered allocator callbacks"])

p("C03", "A failed allocation is reported cleanly and leaves objects usable",
  "If any memory request fails during a library call, the call either reports an error or still delivers its normal, correct result; it never crashes, leaks, releases something twice or returns a half-built object. Arguments the call consumes are released, every other object keeps its previous content, and the same call succeeds with the normal result when memory is available again.",
  ["fault_sequences", "programs"],
  "for every allocation point reached by every API scenario, failing alone or together with all later ones",
  "The test suite's own allocation-failure mode is a global random rate which only asserts absence of crash in whatever the tests reach; it neither enumerates the failure points nor checks what is returned or left behind.",
  ["src/ecoli_*.c"],
  [("fail: labels / goto cleanup in every constructor and setter", "src/ecoli_node_*.c, src/ecoli_config.c, src/ecoli_strvec.c, src/ecoli_htable.c"),
   ("error propagation of parse and complete", "src/ecoli_parse.c, src/ecoli_complete.c")],
  observe=["return values", "registered allocator callbacks"])

p("C04", "Parsing accepts exactly the language of the grammar",
  "For every well-founded grammar (no left recursion) and token vector, parsing reports a match, and the number of tokens consumed, exactly as the documented meaning of the node types dictates: sequences match their children in order, alternatives take the first child that matches, repetitions are greedy within their bounds, options may match nothing, subsets take the largest set of children in any order each at most once, single-use nodes match once per input, terminals match one token by their own rule. Any other input is reported as not matching and never as an error.",
  ["inputs", "programs", "configurations"],
  "for every finite grammar built from the built-in node types (including shared and recursive ones), every node configuration, every token vector",
  "Each node's unit test checks a few accept/reject examples of that node alone; interactions of nested, nullable, bounded and shared nodes over all token vectors are not sampled.",
  ["src/ecoli_parse.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_many.c", "src/ecoli_node_option.c", "src/ecoli_node_subset.c", "src/ecoli_node_once.c", "src/ecoli_node_str.c", "src/ecoli_node_any.c", "src/ecoli_node_space.c", "src/ecoli_node_empty.c", "src/ecoli_node_none.c", "src/ecoli_node_bypass.c", "src/ecoli_node_sh_lex.c"],
  [("ec_parse_child and node parse callbacks", "src/ecoli_parse.c:__ec_parse_child, src/ecoli_node_*.c:*_parse")],
  observe=["match result and consumed token count returned to the caller"])

p("C05", "The parse tree is a faithful, well-formed account of the match",
  "When input matches, the returned tree records which grammar node matched which tokens: every node carries exactly the tokens it consumed with their attributes, the tokens of a node are the concatenation of its children's, and attempts that were abandoned leave no trace; when it does not match, the tree is a single node with no tokens. Navigation, depth-first iteration, search by identifier and duplication of a tree all agree with that structure.",
  ["inputs", "programs", "histories"],
  "for every grammar, every matching or non-matching input and every navigation/search/duplication sequence on the result",
  "Tests mostly look only at the match count; the shape of the tree is examined for a few trees, and stale nodes left by abandoned alternatives do not change the count.",
  ["src/ecoli_parse.c", "src/ecoli_node_subset.c", "src/ecoli_node_many.c", "src/ecoli_node_seq.c", "src/ecoli_node_cond.c"],
  [("child link/unlink/delete-last", "src/ecoli_parse.c"),
   ("token slice attached on success", "src/ecoli_parse.c:__ec_parse_child"),
   ("iteration and find", "src/ecoli_parse.c:__ec_pnode_iter_next, ec_pnode_find_next"),
   ("tree duplication", "src/ecoli_parse.c:ec_pnode_dup")],
  observe=["public tree accessors"])

p("C06", "Completion proposes exactly the continuations the grammar allows",
  "For every well-founded grammar and partial input, the completion list contains precisely the values that can stand for the last token, given some way of dividing the preceding tokens among the grammar's nodes: every proposed full item extends the typed prefix and is accepted there by the node that proposed it, no acceptable literal continuation is missing, each is reported once per such division, and positions that accept a value the library cannot enumerate are reported as such. Nothing is proposed where the preceding tokens cannot match.",
  ["inputs", "programs"],
  "for every grammar built from the built-in node types and every token vector or command line, with any prefix as last token",
  "Unit tests list expected completions for a few grammars; completion explores every way the preceding tokens can be split across nested nodes, which examples do not cover.",
  ["src/ecoli_complete.c", "src/ecoli_node_seq.c", "src/ecoli_node_or.c", "src/ecoli_node_many.c", "src/ecoli_node_option.c", "src/ecoli_node_subset.c", "src/ecoli_node_once.c", "src/ecoli_node_str.c", "src/ecoli_node_sh_lex.c", "src/ecoli_node_expr.c"],
  [("ec_complete_child and node complete callbacks", "src/ecoli_complete.c, src/ecoli_node_*.c:*_complete"),
   ("quote handling of the shell lexer node", "src/ecoli_node_sh_lex.c:ec_node_sh_lex_complete")],
  observe=["completion items returned to the caller"])

p("C07", "Completion lists are consistent collections",
  "In every completion list the per-type counts equal the number of items of that type, iterating with any type filter visits each such item exactly once in order and stops, and every item belongs to one group, knows its issuing grammar node, and its typed prefix followed by its completion text spells its full text. Merging two lists keeps every item, and each group's recorded parse state is the tree of the tokens already accepted.",
  ["inputs", "programs", "histories"],
  "for every completion list produced by any grammar/input or built and merged by hand, and every type filter",
  "Tests count items of one type for a few lists whose groups all contain that type; mixed-type groups, empty groups and merges are not exercised.",
  ["src/ecoli_complete.c"],
  [("item/group bookkeeping", "src/ecoli_complete.c:ec_comp_item_add, ec_comp_add_item"),
   ("filtered iteration", "src/ecoli_complete.c:__ec_comp_iter_next"),
   ("merge", "src/ecoli_complete.c:ec_comp_merge")],
  observe=["count / iteration / accessor API"])

p("C08", "Parsing and completing are repeatable and never change grammar or input",
  "Parsing, completing, dumping or describing never alters the grammar, its configuration, the input vector or results returned earlier, so the same request always gives the same answer regardless of what was parsed or completed before or in between. Results stay valid and unchanged after the input they came from, and sibling results, are modified or released.",
  ["histories", "inputs", "programs"],
  "for every interleaving of parse, complete, dump and release operations on one shared grammar",
  "Tests run each query once on a fresh grammar; state carried over between queries, or restored incorrectly after temporary changes inside the grammar, needs a history to be seen.",
  ["src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node_subset.c", "src/ecoli_node_once.c", "src/ecoli_node_dynamic.c", "src/ecoli_strvec.c"],
  [("read-only use of node private data", "src/ecoli_node_*.c"),
   ("temporary table edits restored after use", "src/ecoli_node_subset.c"),
   ("shared copy-on-write token storage", "src/ecoli_strvec.c")],
  observe=["repeated query results", "grammar and configuration dumps"])

p("C09", "Shell-style lexing splits every line as documented",
  "Splitting a command line yields exactly the words a shell-like reader expects: blanks separate words, single and double quotes and backslashes group and escape characters, an unquoted # at the start of a word begins a comment up to the end of line, and empty quoted words are kept. Strict mode rejects an unterminated quote or escape while relaxed mode keeps the text read so far and reports which quote is open. Trailing-blank mode adds one empty word exactly when the line is empty or ends in a blank that is outside any word, quote or comment.",
  ["inputs", "configurations"],
  "for every byte string and every combination of lexing flags",
  "Tests check around two dozen strings; the lexer is a state machine over arbitrary interleavings of quotes, escapes, blanks and comments.",
  ["src/ecoli_strvec.c", "src/ecoli_node_sh_lex.c"],
  [("lexer state machine", "src/ecoli_strvec.c:ec_strvec_sh_lex_str"),
   ("lexer node", "src/ecoli_node_sh_lex.c")],
  observe=["returned vector, attributes, open quote, errno"])

p("C10", "Regular-expression nodes and lexers match exactly what the patterns say",
  "A regular-expression terminal matches a token exactly when the whole token matches the extended pattern. A regular-expression lexer cuts its input from the start, at each position using the first registered pattern that matches there, keeps or drops each piece as configured with its attribute, and matches only if the whole text is cut and the child accepts all kept pieces; text it cannot cut is a non-match, and it always terminates.",
  ["inputs", "configurations"],
  "for every set of valid patterns, keep flags and attributes, and every text",
  "Tests use two or three patterns on a few strings; pattern order, empty matches, dropped pieces and uncuttable text are combinations of configuration and input.",
  ["src/ecoli_node_re.c", "src/ecoli_node_re_lex.c", "src/ecoli_node_any.c"],
  [("full-match test", "src/ecoli_node_re.c:ec_node_re_parse"),
   ("tokenizer", "src/ecoli_node_re_lex.c:tokenize")],
  observe=["match result and token attributes"])

p("C11", "Integer nodes accept exactly the in-range integers of their base",
  "A signed or unsigned integer node accepts a token exactly when it is the complete textual form of an integer in the node's base that lies within its optional minimum and maximum, with no overflow wrap-around, and the value retrieved for an accepted token is that integer. Setting, changing or removing a bound through configuration takes effect exactly as written, independent of earlier configuration.",
  ["inputs", "configurations", "histories"],
  "for every base, every bound pair (or absent bounds), every sequence of reconfigurations and every token",
  "Tests check a dozen literals with two or three bound settings built by the constructor; extreme values, partial bounds and reconfiguration are not covered.",
  ["src/ecoli_node_int.c", "src/ecoli_string.c"],
  [("bound checks", "src/ecoli_node_int.c:ec_node_int_uint_parse"),
   ("configuration of bounds", "src/ecoli_node_int.c:ec_node_int_uint_set_config"),
   ("strict text conversion", "src/ecoli_string.c:ec_str_parse_llint, ec_str_parse_ullint")],
  observe=["match result, retrieved value"])

p("C12", "Token vectors behave as independent values",
  "A vector of strings, and every copy or slice taken from it, behaves as its own independent sequence of strings with optional attributes: changing, appending to, removing from, sorting or freeing one never affects another, and length, element access, comparison and slicing agree with the sequence. Out-of-range requests are refused with an error and change nothing.",
  ["histories", "inputs"],
  "for every history of operations over any number of vectors sharing storage",
  "Tests follow one short scripted history; copies share reference-counted storage internally, so aliasing errors depend on which copies are alive when one of them is changed.",
  ["src/ecoli_strvec.c"],
  [("reference-counted elements and copy-on-write", "src/ecoli_strvec.c:ec_strvec_set, ec_strvec_set_attrs, ec_strvec_ndup, ec_strvec_free")],
  observe=["public accessors"])

p("C13", "Hash tables and dictionaries are exact maps that release values once",
  "A hash table or dictionary always returns the last value stored under a key and nothing for other keys, its length and iteration cover exactly the stored keys once each, and growth, deletion or replacement never lose or invent entries. Each stored value's release callback runs exactly once, when the last table or duplicate holding it lets it go, never earlier, and also when storing fails.",
  ["histories", "inputs"],
  "for every history of set/get/delete/duplicate/iterate/free over tables with arbitrary binary keys, including many colliding buckets and growth",
  "Tests store a few keys in one table; growth, collision chains, NULL values, shared duplicates and release order are history-dependent.",
  ["src/ecoli_htable.c", "src/ecoli_dict.c", "src/ecoli_murmurhash.c"],
  [("bucket lookup, growth and relinking", "src/ecoli_htable.c"),
   ("shared element reference count", "src/ecoli_htable.c:ec_htable_dup, ec_htable_elt_ref_free"),
   ("string-key wrapper", "src/ecoli_dict.c")],
  observe=["map API", "release callback counters"])

p("C14", "Configuration trees are checked, copied, compared and edited exactly",
  "A configuration is accepted against a schema exactly when every key is declared and every value, at every depth, has the declared type; malformed schemas are rejected. A duplicate equals its source and is independent of it, comparison reports equality exactly when type and content agree at every depth, and dictionary and list edits behave as on a plain dictionary or list with refused edits releasing their argument and changing nothing.",
  ["inputs", "histories", "configurations"],
  "for every schema, every (possibly ill-typed, nested) configuration value and every edit history",
  "Tests validate one schema with a few values; nested lists and dictionaries, near-miss types and long edit histories are not sampled.",
  ["src/ecoli_config.c"],
  [("schema and value validation", "src/ecoli_config.c:__ec_config_schema_validate, ec_config_validate"),
   ("deep copy / compare", "src/ecoli_config.c:ec_config_dup, ec_config_cmp"),
   ("list and dict edits", "src/ecoli_config.c")],
  observe=["public config API and dump"])

p("C15", "Reconfiguring a node is all-or-nothing and equivalent to building it so",
  "Applying a configuration to a grammar node either succeeds, after which the node behaves like one freshly built with that configuration whatever it was before, or fails, after which the node keeps its previous configuration, children and behaviour and the rejected configuration is released. The children a node reports are exactly those its current configuration holds.",
  ["configurations", "histories", "inputs"],
  "for every node type, every sequence of valid and invalid configurations applied to one node, and every later parse or completion",
  "Tests configure each node once with a good and sometimes a bad configuration; sequences of reconfiguration and the state kept after a refusal are not covered.",
  ["src/ecoli_node.c", "src/ecoli_node_*.c", "src/ecoli_node_helper.c"],
  [("generic set_config with schema validation", "src/ecoli_node.c:ec_node_set_config"),
   ("type callbacks that swap private data only after success", "src/ecoli_node_*.c:*_set_config")],
  observe=["node behaviour and reported configuration/children"])

p("C16", "Grammar nodes live exactly as long as something refers to them",
  "A grammar node and everything reachable from it stays usable as long as the application or another live grammar holds a reference, and is released as soon as none does, even when nodes are shared by several parents, referenced several times by one parent, or form cycles. Releasing one reference never affects what other holders can parse.",
  ["histories", "programs"],
  "for every grammar graph (DAG or cyclic, any node types) and every order of taking and dropping references",
  "Tests release trees and one loop in one order; premature release and leaks depend on the graph shape, on which references are external, and on the release order.",
  ["src/ecoli_node.c", "src/ecoli_node_*.c"],
  [("reference count and loop-aware release", "src/ecoli_node.c:ec_node_free, count_references, mark_freeable"),
   ("child/reference reporting", "src/ecoli_node_*.c:*_get_child")],
  observe=["registered allocator", "use of retained references"])

p("C17", "Expressions evaluate by precedence with every operand released once",
  "An infix expression is accepted exactly when well formed for the registered values, prefix, postfix and binary operators and parentheses, and evaluation applies operators by their registered precedence and left-to-right order, parentheses first. Each intermediate result is handed to exactly one consumer or released exactly once, also when a callback reports an error, and errors are propagated.",
  ["inputs", "programs", "fault_sequences"],
  "for every operator set, every token string, and every callback that may fail",
  "Tests evaluate a handful of sums and products; operator mixes, nesting, malformed strings and failing callbacks are not enumerated.",
  ["src/ecoli_node_expr.c"],
  [("grammar built from operators", "src/ecoli_node_expr.c:ec_node_expr_build"),
   ("tree evaluation and release", "src/ecoli_node_expr.c:eval_expression, ec_node_expr_eval")],
  observe=["evaluation callbacks and result"])

p("C18", "Command strings mean the grammar they spell",
  "A grammar written as a command string accepts, rejects and completes exactly like the same grammar assembled by hand from sequences, alternatives, subsets, options and repetitions with the documented operator precedence, with words standing for the supplied node of that identifier or else for themselves. Malformed command strings are rejected, and the supplied nodes are never modified.",
  ["inputs", "programs"],
  "for every command string and every set of supplied nodes",
  "Tests compile five command strings; operator nesting, repeated use of a supplied node and malformed strings are unbounded.",
  ["src/ecoli_node_cmd.c", "src/ecoli_node_expr.c"],
  [("command-string parser and evaluator", "src/ecoli_node_cmd.c:ec_node_cmd_build, eval_*")],
  observe=["parse and completion results of the built node"])

p("C19", "Conditional nodes match only when their condition holds",
  "A conditional node matches exactly when its child matches and its condition, evaluated on the parse made so far, is true; otherwise it does not match and leaves no trace. Condition functions return what they document on node sets, and ill-formed conditions are refused when the node is configured.",
  ["inputs", "programs", "configurations"],
  "for every well- or ill-formed condition expression, every grammar around it and every input",
  "Tests use two conditions on short inputs; conditions are arbitrary nested function calls evaluated against arbitrary parse trees.",
  ["src/ecoli_node_cond.c"],
  [("condition evaluation", "src/ecoli_node_cond.c:eval_condition and eval_func_table"),
   ("parse with condition", "src/ecoli_node_cond.c:ec_node_cond_parse")],
  observe=["match results and parse tree"])

p("C20", "Dynamically built grammars see the parse so far and outlive their use",
  "A dynamic node consults its builder with the parse made so far each time it is reached, then parses and completes exactly like the node the builder returned; a builder that returns nothing makes the request fail cleanly. Nodes built this way stay valid as long as any result that mentions them, and are released with it.",
  ["histories", "inputs", "programs"],
  "for every builder behaviour (including context-dependent, recursive and failing ones), every input and every order of releasing results and grammars",
  "The unit test uses one fixed builder; lifetime across results and dependence on the partial parse are history properties.",
  ["src/ecoli_node_dynamic.c", "src/ecoli_parse.c", "src/ecoli_complete.c"],
  [("built node attached to the result's attributes", "src/ecoli_node_dynamic.c")],
  observe=["builder callback, parse and completion results, allocator"])

p("C21", "File completion mirrors the directory being completed",
  "Completing a path proposes exactly the entries of the named directory whose name starts with the typed base name: directories as partial items ending in a slash, other files as full items, hidden entries only when the typed name starts with a dot. The directory part typed by the user is preserved, special names are handled verbatim, and a directory that does not exist or cannot be read yields no proposal.",
  ["inputs", "configurations", "fault_sequences"],
  "for every directory content (any names, types, links), every typed path and every failing file-system call",
  "The unit test mocks three entries; names, links, hidden files, relative and absolute prefixes and failing calls are not covered.",
  ["src/ecoli_node_file.c"],
  [("path split and directory scan", "src/ecoli_node_file.c:split_path, ec_node_file_complete")],
  observe=["completion items versus a scratch directory"])

p("C22", "YAML import builds the described grammar or refuses cleanly",
  "A YAML description is imported as exactly the grammar it describes: node types, identifiers, configuration values of every kind, attributes, help texts and shared (anchored) nodes give a grammar that parses and completes like the same grammar built through the API. Any other document, including truncated, ill-typed, unreadable or missing files, is refused without crash, leak or partially imported result.",
  ["inputs", "fault_sequences"],
  "for every YAML document, valid or not",
  "One demonstration file is imported by the examples and no unit test exists for import; documents are unbounded.",
  ["src/ecoli_yaml.c"],
  [("document walk", "src/ecoli_yaml.c:parse_ec_node, parse_ec_config"),
   ("anchor table", "src/ecoli_yaml.c:struct enode_table")],
  observe=["imported grammar behaviour", "allocator"])

p("C23", "Interactive helpers agree with the completion engine",
  "For every grammar and edited line, the interactive helpers list exactly the completion engine's candidates, append exactly the longest text common to all of them, and show one help entry with the right description and help text for every position the grammar can continue with. A line read in interactive mode is returned and parsed exactly as typed, and changing history or prompt settings at any time is safe.",
  ["inputs", "histories", "programs"],
  "for every grammar, line, cursor position and order of settings calls",
  "No unit test covers the interactive layer at all.",
  ["src/ecoli_editline.c"],
  [("candidate and common-prefix computation", "src/ecoli_editline.c:ec_editline_get_completions, ec_editline_append_chars"),
   ("contextual help", "src/ecoli_editline.c:ec_editline_get_helps, get_node_help"),
   ("line reading", "src/ecoli_editline.c:ec_editline_gets, ec_editline_parse")],
  observe=["helper results over scripted terminals"])

p("C24", "Start-up, shut-down, logging and registration follow their rules",
  "Start-up functions registered by applications and modules run in increasing priority order, once per start, the first failing one stops the start and is reported, and shut-down functions run in the reverse order. Every log message reaches the registered sink intact with its type and level (the default sink prints exactly the enabled levels), log type names stay bound to their numbers. Duplicate node types are refused unless overriding, and the allocator can be replaced only before start-up.",
  ["histories", "fault_sequences", "configurations"],
  "for every set of registered functions with arbitrary priorities and failures, every log level/sink history and every registration order",
  "The test program starts and stops the library once with the built-in registrations.",
  ["src/ecoli_init.c", "src/ecoli_log.c", "src/ecoli_malloc.c", "src/ecoli_node.c"],
  [("ordered registration list", "src/ecoli_init.c"),
   ("log types and sink", "src/ecoli_log.c"),
   ("allocator registration gate", "src/ecoli_malloc.c"),
   ("node type registry", "src/ecoli_node.c:ec_node_type_register")],
  observe=["callback traces"])

p("C25", "Generic vectors hold exactly the elements added to them",
  "A generic vector of fixed-size elements returns exactly the elements added, in order, for every element size and any growth, slices and duplicates are independent copies made with the caller's copy function, and each element the vector owns is released exactly once. Requests of the wrong element size or outside the vector are refused without effect.",
  ["histories", "inputs"],
  "for every element size and every history of add/get/duplicate/slice/free over vectors",
  "Tests add a handful of integers; growth boundaries, odd element sizes and slices with callbacks are not covered.",
  ["src/ecoli_vec.c"],
  [("growth and element copy", "src/ecoli_vec.c:__ec_vec_add, ec_vec_ndup")],
  observe=["vector API and element callbacks"])

p("C26", "Application-defined node types are first-class grammar nodes",
  "A node type an application registers through the public API takes part in grammars like the built-in ones. Each of its nodes gets a zeroed private area of the declared size, its initialiser and release callbacks run exactly once, and a configuration reaches it only if it satisfies the declared schema. Its parse and completion callbacks receive exactly the tokens and the parse state at their place, their verdict (tokens consumed, no match, error) is honoured and errors reach the caller leaving nothing behind. Items it adds or edits appear with the text, display and completion strings it set, in its group; a type without completion callback proposes an unknown item and one without parse callback makes parsing fail.",
  ["programs", "inputs", "fault_sequences"],
  "for every set of application-defined types, every grammar mixing them with built-in nodes, every input and every callback failure",
  "The unit tests only use built-in types, whose callbacks never fail and never inspect what they are handed.",
  ["src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_config.c"],
  [("type registration and node construction", "src/ecoli_node.c:ec_node_type_register, ec_node_from_type, ec_node_set_config"),
   ("calls into node callbacks", "src/ecoli_parse.c:__ec_parse_child, src/ecoli_complete.c:ec_complete_child"),
   ("item editing", "src/ecoli_complete.c:ec_comp_item_set_str, ec_comp_item_set_display, ec_comp_item_set_completion, ec_comp_add_item"),
   ("default completion", "src/ecoli_complete.c:ec_complete_unknown")],
  observe=["arguments of the callbacks", "results seen by the caller"])

p("C27", "String, memory and hash helpers behave as defined on every input",
  "The helpers applications and node types are written with do what they are documented to do for every string and buffer: common prefix length, prefix test, only-blanks test, formatted strings, string and memory duplication, zeroed and resized allocations, and the 32-bit MurmurHash3. They look at no byte outside their arguments, and lack of memory is reported with the original left untouched.",
  ["inputs", "fault_sequences"],
  "for every string, buffer length, alignment, seed and allocation failure",
  "Tests call the helpers with a few short strings; lengths, alignments, sign of characters and allocation failures are not sampled.",
  ["src/ecoli_string.c", "src/ecoli_malloc.c", "src/ecoli_murmurhash.c"],
  [("string helpers", "src/ecoli_string.c"), ("allocation helpers", "src/ecoli_malloc.c"), ("hash", "src/ecoli_murmurhash.c")],
  observe=["return values, buffer contents, allocator"])

p("C28", "Shell scripts see the same parse through the YAML tool and shell helpers",
  "A shell script that runs the YAML parser tool on a description and a line gets exactly what the library computes: the tool succeeds and writes a result exactly when the line matches, and refuses anything else with status 1 and no result. A shell that sources that result and libecoli.sh sees the same tree through the helper functions: first child, next sibling, iteration over all nodes, identifiers, number of strings and the strings themselves (blanks, quotes, stars, dollars and backslashes intact), and search by identifier. In completion mode the tool lists exactly the full and partial candidates of the completion engine.",
  ["inputs", "programs"],
  "for every YAML grammar, every identifier and word, every line and every list of words to complete",
  "No test runs the tool or the shell functions; quoting and iteration faults need special words, missing identifiers or particular tree shapes.",
  ["libshell/libecoli.sh", "examples/parse-yaml/parse-yaml.c", "src/ecoli_yaml.c"],
  [("shell helpers", "libshell/libecoli.sh"), ("result written for the shell", "examples/parse-yaml/parse-yaml.c:dump_as_shell"),
   ("completion listing", "examples/parse-yaml/parse-yaml.c:interact, complete_words")],
  observe=["exit status, files and output of the tool", "what a shell prints through the helpers"])

p("C29", "Every documented failure tells why, and a stored NULL is not an error",
  "Whenever a function whose documentation says so (\"on error ... errno is set\") reports a failure by NULL or a negative value, errno is non-zero afterwards, whatever the cause: a missing or ill-typed argument, an index or key that does not exist, text that is no number or is out of range, an ill-formed schema, configuration, command line or YAML document, a failing node callback, or lack of memory. Looking up a key whose stored value is NULL leaves errno at 0, so that it can be told from an absent key, for which errno is set.",
  ["inputs", "fault_sequences"],
  "for every refused argument, input, document, configuration and callback, and every point where memory can run out",
  "Tests check that calls fail, hardly ever what errno says, and each error exit sets it separately.",
  ["src/ecoli_htable.c", "src/ecoli_dict.c", "src/ecoli_config.c", "src/ecoli_string.c", "src/ecoli_strvec.c", "src/ecoli_yaml.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node_helper.c", "src/ecoli_malloc.c"],
  [("lookups", "src/ecoli_htable.c:ec_htable_lookup, ec_htable_get"),
   ("numbers", "src/ecoli_string.c:ec_str_parse_llint, ec_str_parse_ullint"),
   ("configurations and schemas", "src/ecoli_config.c"),
   ("documents", "src/ecoli_yaml.c:ec_yaml_import"),
   ("parse and completion", "src/ecoli_parse.c:ec_parse_strvec, src/ecoli_complete.c:ec_complete_strvec")],
  observe=["errno right after each refused call"])

p("C30", "Inspection shows grammars and results exactly as they are",
  "For every grammar, whatever is shared, repeated or looping in it: enumerating the children of a node gives exactly the nodes it was built from, in the order given for sequences and alternatives, and no node for any other index; type, identifier and description are those of the node, and a node passes the check for its own type only; searching by identifier from a node returns a node that carries exactly this identifier and is reachable from it whenever there is one, and nothing otherwise; dumping a grammar ends, shows every reachable node in full exactly once at its place and marks further appearances; dumping a parse tree shows every node of it with its words, in order and depth; dumping a completion list shows its counts and every item. None of this changes the grammar, the tree or the list.",
  ["inputs", "histories"],
  "for every grammar graph and every starting node, identifier, parse tree and completion list",
  "Tests dump one or two small trees and look two identifiers up; sharing, loops, repeated identifiers, operator and command nodes are not combined.",
  ["src/ecoli_node.c", "src/ecoli_parse.c", "src/ecoli_complete.c", "src/ecoli_node_*.c"],
  [("children", "src/ecoli_node.c:ec_node_get_child, ec_node_get_children_count and the get_child callbacks"),
   ("lookup", "src/ecoli_node.c:ec_node_find"),
   ("types", "src/ecoli_node.c:ec_node_check_type, ec_node_type_lookup, ec_node_desc"),
   ("dumps", "src/ecoli_node.c:ec_node_dump, src/ecoli_parse.c:ec_pnode_dump, src/ecoli_complete.c:ec_comp_dump")],
  observe=["children lists, lookups and dump texts of random grammars, trees and lists"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
