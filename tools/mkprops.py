import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":["graphtransliterator/"+f for f in files],
       "mechanism":[{"name":n,"where":"graphtransliterator/"+w} for n,w in mech],
       "observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"graphtransliterator/"+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Tokenization is exact longest-match with whitespace framing",
 "Tokenizing a recognizable string yields, between one default whitespace token at each end, exactly the configured tokens obtained by repeatedly taking the longest token that prefixes the remaining input, whatever characters the tokens contain and however many there are. With consolidation off every token is kept, so the tokens concatenate back to the input; with consolidation on, leading and trailing whitespace tokens are absorbed by the framing tokens, each interior run of two or more whitespace tokens becomes a single default whitespace token, and everything else is kept unchanged.",
 ["inputs","configurations"],"every token inventory (overlapping, multi-character, regex-special, Unicode, many whitespace tokens), whitespace setting and input string",
 "Tests tokenize a handful of fixed strings over one or two hand-written inventories; overlapping tokens, special characters and whitespace runs multiply without bound.",
 ["core.py","initialize.py"],[("GraphTransliterator.tokenize","core.py"),("_tokenizer_pattern_from","initialize.py")],["GraphTransliterator.tokenize","GraphTransliterator.last_input_tokens"])
p("C02","Match-all query returns exactly the applicable rules",
 "For any rule set, framed token sequence and position, the match query that asks for all matches returns, without duplicates, exactly the rules whose own tokens stand at that position and whose required preceding and following tokens and classes stand immediately around them. A context that would reach before the first or beyond the last token never matches, and a context of classes lies outside (further from the match than) a context of tokens.",
 ["inputs","configurations"],"every rule set, token sequence framed by default whitespace, and position in it",
 "Tests look at single hand-made rules and positions; interactions of shared prefixes, four context kinds and both boundaries form an unbounded space.",
 ["core.py","initialize.py"],[("GraphTransliterator.match_at","core.py"),("_match_constraints/_match_tokens","core.py"),("_graph_from","initialize.py")],["GraphTransliterator.match_at(match_all=True)"])
p("C03","The chosen rule is always a most specific applicable rule",
 "For any rule set, framed token sequence and position, the single match query returns nothing exactly when no rule applies, and otherwise an applicable rule that requires at least as many tokens (own tokens plus all context tokens and classes) as every other applicable rule. A transliterator built from settings holds its rules in order of increasing cost, where the cost of a rule requiring n tokens is log2(1+1/(1+n)), and every rule given in the settings is present exactly once.",
 ["inputs","configurations"],"every rule set (including shared token prefixes with and without context), token sequence and position",
 "Tests check a few rule pairs; which rule a prefix-tree search reaches first depends on the combination of all rules sharing a prefix and on the input.",
 ["core.py","initialize.py","schemas.py"],[("GraphTransliterator.match_at","core.py"),("_graph_from edge costs and ordered children","initialize.py"),("_cost_of","initialize.py"),("sort_rules_by_cost","schemas.py")],["GraphTransliterator.match_at","GraphTransliterator.rules"])
p("C04","Output is the concatenation of productions that tile the input",
 "When transliteration succeeds, the rules it used, taken from the first token after the initial framing whitespace, each apply where the previous one's own tokens ended and together consume the input up to the final framing whitespace. The output is exactly their productions in order, each preceded by at most one on-match insertion. The transliterator reports afterwards exactly these rules, their tokens, and the tokenized input.",
 ["inputs","configurations"],"every configuration and input that transliterates without error",
 "Tests compare a few fixed outputs; tiling must hold for every combination of rule lengths, contexts and whitespace.",
 ["core.py"],[("GraphTransliterator.transliterate","core.py")],["GraphTransliterator.transliterate","last_matched_rules","last_matched_rule_tokens","last_input_tokens"],
 [("last matched rules","rules used by the last transliteration","core.py")])
p("C05","On-match insertions appear exactly where their classes meet",
 "Before a matched rule's production, the output contains the production of the first on-match rule, in the given order, whose preceding classes are those of the tokens immediately before the match and whose following classes are those of the tokens starting with the first matched token; if there is none, nothing is inserted. Contexts of several classes are matched in full, may include the framing whitespace, and never match across the ends of the input.",
 ["inputs","configurations"],"every set of on-match rules (overlapping, multi-class, several per token pair), rule set and input",
 "Tests cover one or two single-class on-match rules on fixed inputs.",
 ["core.py","initialize.py"],[("on-match loop in transliterate","core.py"),("_onmatch_rules_lookup","initialize.py")],["GraphTransliterator.transliterate","GraphTransliterator.onmatch_rules_lookup"])
p("C06","Errors are raised exactly when input cannot be read or matched",
 "Without error-ignoring, transliteration and tokenization raise the unrecognizable-input exception exactly when some character position reached by longest-match tokenization starts no token, transliteration raises the no-matching-rule exception exactly when a reached token position has no applicable rule, and there is no other failure. With error-ignoring (given at construction, load, or set later) neither is raised: the unrecognizable character, or the unmatched token, is skipped and everything else is processed as usual. Each such event is logged as a warning naming the position, and transliteration of a finite input always terminates.",
 ["inputs","configurations"],"every configuration and every string, including arbitrary Unicode, with error-ignoring on or off",
 "Tests try one bad character and one missing rule; positions and combinations of errors with whitespace handling and partial rule sets are unbounded.",
 ["core.py","exceptions.py"],[("GraphTransliterator.tokenize","core.py"),("GraphTransliterator.transliterate","core.py"),("exception types","exceptions.py")],["GraphTransliterator.transliterate","GraphTransliterator.tokenize","GraphTransliterator.ignore_errors","logger graphtransliterator"])
p("C07","Transliteration does not depend on history or on other instances",
 "Whatever operations were performed before on a transliterator, on others derived from it, or on others built from the same settings objects (transliterations that succeed or fail, dumps, prunings, match queries, toggling error-ignoring), each call returns what a freshly built transliterator with the same settings would return. After a transliteration that succeeds, and until the next one, the reported last input tokens and last matched rules describe that call, and no operation modifies the settings objects or token lists passed to it.",
 ["histories","configurations"],"every sequence of public operations over several live transliterators, and every configuration",
 "Tests make one or two calls per instance; state leaking between calls or shared between instances only shows after particular sequences.",
 ["core.py","graphs.py","schemas.py"],[("per-call state in transliterate","core.py"),("pruned_of sharing settings","core.py"),("graph loading by deep copy","schemas.py")],["all public methods of GraphTransliterator"],
 [("last tokens and rule keys","per-call result state","core.py")])
p("C08","Ambiguity checking accepts no ambiguous rule set and rejects no clear one",
 "If there is any input string and position at which two equally specific rules both apply and no more specific rule does, constructing a transliterator with ambiguity checking on raises the ambiguity exception and logs a warning naming both rules. If every pair of equally specific rules that can apply together is overridden, wherever both apply, by one single more specific rule, or if no such pair exists, it does not raise. The verdict does not depend on the order in which rules are given, and with checking off construction never raises it.",
 ["configurations","inputs"],"every token/class/rule configuration, and for each all input strings",
 "Tests hold a few ambiguous and unambiguous pairs; ambiguity is a statement about all inputs and all pairs of rules at once.",
 ["ambiguity.py","core.py"],[("check_for_ambiguity","ambiguity.py"),("GraphTransliterator.__init__","core.py")],["GraphTransliterator.from_dict(check_ambiguity=...)","AmbiguousTransliterationRulesException","logged warnings"])
p("C09","Saving and loading loses nothing at any compression level",
 "For every transliterator and every compression level, as Python data or as JSON, dumping and loading it back gives a transliterator with the same tokens and classes, rules in the same order with the same costs, whitespace settings, on-match rules, metadata, error-ignoring setting and tokenizer. It gives the same tokens, matches, outputs and errors on every input as the original, and an unsupported compression level is rejected.",
 ["inputs","configurations"],"every valid configuration (including ties, absent optional parts, empty productions, odd metadata), compression level, format, and input",
 "Tests round-trip one or two configurations; loss appears only with particular optional parts, orders, ids or levels.",
 ["core.py","compression.py","schemas.py"],[("compress_config/decompress_config","compression.py"),("dump/dumps/load/loads","core.py"),("GraphTransliteratorSchema","core.py"),("DirectedGraphSchema","schemas.py")],["dump","dumps","load","loads"])
p("C10","Serialized form is deterministic and stable",
 "Dumping the same transliterator repeatedly, at any level and before or after using it, gives equal results; dumping what was loaded from a dump gives that dump again. The JSON text produced at the compressed levels is the same in every process for equal settings, independent of hash randomization and of the order in which tokens and their classes are listed, and is valid JSON in compact form.",
 ["configurations","histories"],"every configuration, compression level, use between dumps, and process hash seed",
 "Tests dump once or twice within one process with one hash seed.",
 ["core.py","compression.py","schemas.py","graphs.py"],[("compress_config id assignment","compression.py"),("sort_edge_list","schemas.py"),("dumps","core.py")],["dump","dumps"])
p("C11","Load options and optional fields are honoured; newer versions are refused",
 "Options given when loading (error-ignoring, ambiguity checking) override what is stored, for uncompressed and compressed data alike. Leaving out any derived optional field gives an equivalent transliterator, on-match lookups without on-match rules are refused with a validation error, data marked with a numerically later version is refused with the version exception while data of an equal or earlier version loads. The settings object passed to load is not modified.",
 ["configurations","inputs"],"every configuration, compression level, option combination, subset of optional fields, and version number",
 "Tests load one configuration with few field subsets and one later version.",
 ["core.py","compression.py"],[("check_version_and_compression","core.py"),("make_GraphTransliterator","core.py"),("validate_onmatch_rules_lookup","core.py")],["GraphTransliterator.load","GraphTransliterator.loads"])
p("C12","Easy-reading dict, YAML and YAML file mean the same as direct settings",
 "Every configuration that can be written in the easy-reading notation yields, whether given as dictionary, YAML text or YAML file, a transliterator with exactly the tokens, classes, rules, contexts, on-match rules, whitespace settings and metadata written, identical to the one built from direct settings. A rule or on-match key in which part of the text is not understood is rejected rather than partly ignored.",
 ["inputs","configurations"],"every configuration expressible in the notation, in every combination of context kinds and spacing",
 "Tests parse about a dozen fixed keys; the notation's combinations of contexts, tokens and punctuation are unbounded.",
 ["process.py","schemas.py","core.py"],[("RULE_RE/_process_rule","process.py"),("ONMATCH_RE/_process_onmatch_rules","process.py"),("EasyReadingSettingsSchema","schemas.py"),("from_easyreading_dict/from_yaml/from_yaml_file","core.py")],["from_easyreading_dict","from_yaml","from_yaml_file"])
p("C13","Invalid settings are rejected with a validation error, valid ones accepted",
 "Settings that lack a required part, have a wrongly typed value, or refer anywhere (rules, contexts, on-match rules, whitespace) to a token or class that is not defined, and rules or tokens that are empty, are rejected with a validation error when a transliterator is built from direct or easy-reading settings. Every setting that is complete, well typed and consistent, with any optional parts left out, is accepted.",
 ["inputs","configurations"],"every valid configuration and every single defect injected at any place in it",
 "Tests try a few malformed dictionaries; the place and kind of a defect multiply with the configuration.",
 ["schemas.py","core.py","process.py"],[("SettingsSchema","schemas.py"),("EasyReadingSettingsSchema","schemas.py"),("from_dict","core.py")],["from_dict","from_easyreading_dict","marshmallow.ValidationError"])
p("C14","The rule graph is a tree that represents every rule exactly once",
 "The graph of a transliterator is a tree rooted at its first node in which every rule is exactly one accepting leaf, the path to it spells the rule's tokens, no two siblings carry the same token, and the last edge carries the rule's context constraints. The cost of every edge is the least cost of the rules below it, and the children recorded for each token of a node are exactly the applicable child nodes in order of increasing cost.",
 ["configurations"],"every rule set, including duplicate token sequences with different contexts and shared prefixes",
 "Tests inspect the graph of one small rule set.",
 ["initialize.py","graphs.py"],[("_graph_from","initialize.py"),("DirectedGraph","graphs.py")],["GraphTransliterator.graph"])
p("C15","Directed graph stays consistent under any sequence of operations",
 "After any sequence of node and edge additions, valid or invalid, a graph holds exactly the nodes and the latest edge data added, with each edge listed once; invalid arguments raise a value error and leave the graph unchanged. Rebuilding a graph from its parts gives an equal graph, whether or not the edge list is supplied, and neither this nor the use of the new graph changes a list supplied.",
 ["histories","inputs"],"every sequence of add-node and add-edge calls with arbitrary arguments, and reconstruction at any point",
 "Tests add one or two nodes and edges.",
 ["graphs.py"],[("DirectedGraph.add_node/add_edge/__init__","graphs.py")],["DirectedGraph.node","DirectedGraph.edge","DirectedGraph.edge_list"])
p("C16","Coverage tracking reports exactly what transliteration exercised",
 "A coverage-tracking transliterator gives the same outputs as a plain one. A graph node or edge, or an on-match rule, counts as covered once transliteration or matching has matched through it, and does not count if no transliteration or match query could have examined it (as an on-match rule after one that applies) since construction or the last clearing; iterating over it, dumping or checking never marks anything as covered. The coverage checks return whether everything is covered, and when not raise the corresponding exception naming the misses if raising is requested.",
 ["histories","configurations"],"every configuration and every sequence of transliterations, match queries, inspections, checks and clearings",
 "Tests run one bundled transliterator to full coverage and one small miss.",
 ["core.py","graphs.py"],[("CoverageTransliterator","core.py"),("VisitLoggingList/Dict/DirectedGraph","graphs.py")],["CoverageTransliterator.check_coverage","check_onmatchrules_coverage","clear_visited","logged warnings"],
 [("visited sets","nodes, edges and on-match rules examined","graphs.py")])
p("C17","Pruning removes exactly the rules with the given productions",
 "Pruning a transliterator by a production or a list of productions gives a new transliterator that behaves as if built from the same settings without the rules whose production equals one of those given, keeping every other rule in order along with tokens, whitespace, on-match rules, metadata, error-ignoring and ambiguity-checking settings. The original is unchanged.",
 ["configurations","inputs"],"every configuration and every string or list of productions, present or not, including productions that are substrings of others",
 "Tests prune one production from one configuration.",
 ["core.py"],[("GraphTransliterator.pruned_of","core.py")],["GraphTransliterator.pruned_of"])
p("C18","Command-line interface gives the same results as the library",
 "For every transliterator source (bundled name, JSON text, JSON file, YAML file) and combination of options, in long or short form, the command-line commands print what the library returns: one transliteration per given input, in Python or JSON form, dumps at the requested compression level, generated tests, stored tests, and the list of bundled transliterators. The error-ignoring and ambiguity options, positive and negative, have the library's meaning, and a failure ends with a non-zero status.",
 ["inputs","configurations"],"every configuration, source format, option combination and list of inputs",
 "Tests call each command once or twice with default options.",
 ["cli.py"],[("transliterate/dump/generate_tests/dump_tests/test/list_bundled/make_json commands","cli.py"),("load_transliterator","cli.py")],["graphtransliterator command line: stdout and exit status"])
p("C19","Bundled transliterators behave the same from YAML and from JSON",
 "Every bundled transliterator gives identical rules, tokens and outputs on every input whether loaded from its YAML source or its stored JSON, with or without coverage tracking, by name or by iteration, passes its stored tests, and honours load options. Regenerating the stored JSON yields a file that loads to an equivalent transliterator.",
 ["inputs","configurations"],"every bundled transliterator, loading method and option, and every input over its tokens (and beyond)",
 "Tests run the stored examples, mostly through one loading path.",
 ["transliterators/bundled.py","transliterators/__init__.py","cli.py","core.py"],[("Bundled._init_from/new/from_YAML/from_JSON","transliterators/bundled.py"),("add_transliterators","transliterators/__init__.py"),("make_json","cli.py")],["transliterators.*","Bundled.new","Bundled.run_yaml_tests","make-json"])
p("C20","Unicode character names in YAML mean the named characters",
 "With name unescaping on (the default), every \\N{NAME} escape with a valid Unicode character name in the YAML text, anywhere and any number of times, has the effect of the literal character, and all other text is untouched. With it off, text is read as it stands; a name that does not exist raises an error.",
 ["inputs"],"every Unicode character name and every placement in the YAML text",
 "Tests use a few names made of letters only.",
 ["initialize.py","core.py"],[("_unescape_charnames","initialize.py"),("from_yaml","core.py")],["GraphTransliterator.from_yaml"])
p("C21","Meaning is independent of declaration order and of names",
 "When no two equally specific rules compete on an input, the output depends only on what is configured: reordering the tokens, classes, or rules, renaming classes consistently, or substituting characters consistently in tokens and input does not change the (correspondingly renamed) result. Adding a token, class or rule that cannot occur or match in the input changes nothing either.",
 ["inputs","configurations"],"every configuration, permutation, consistent renaming and irrelevant addition, and every input without ties",
 "Tests compare single fixed configurations and never two equivalent ones.",
 ["core.py","initialize.py","schemas.py"],[("tokenizer ordering","initialize.py"),("graph construction","initialize.py"),("rule sorting","schemas.py")],["GraphTransliterator.transliterate","GraphTransliterator.tokenize"])
p("C22","Generated tests are true and exercise every rule",
 "The tests generated for a transliterator map each input to what the transliterator gives for it. For every transliteration rule they contain an input in which the rule's required preceding, own and following tokens and classes appear consecutively, and for every on-match rule an input in which its preceding and following classes appear consecutively, in order.",
 ["configurations"],"every configuration with single-character tokens that can be transliterated",
 "Tests check that generation works for one bundled transliterator.",
 ["transliterators/bundled.py","cli.py"],[("Bundled.generate_yaml_tests","transliterators/bundled.py"),("generate_tests","cli.py")],["generate_yaml_tests","generate-tests command"])
p("C23","Published views and lookups agree with the configuration",
 "However a transliterator is obtained (direct or easy-reading settings, dumps with or without derived fields, rule objects, coverage tracking, pruning), its published tokens, tokens by class, rules, productions, whitespace, on-match rules, metadata, options and dump are those of its configuration, before and after use. Its on-match lookup lists, for every pair of tokens and in order, exactly the on-match rules whose adjacent classes the two have, and its tokenizer pattern splits text into exactly the tokens of the configuration.",
 ["configurations"],"every configuration and every way to obtain a transliterator of it",
 "Tests look at a few attributes of two or three fixed configurations.",
 ["core.py","initialize.py","schemas.py","compression.py"],[("_tokens_by_class_of/_onmatch_rules_lookup/_tokenizer_pattern_from","initialize.py"),("GraphTransliterator properties","core.py"),("GraphTransliteratorSchema","schemas.py")],["tokens","tokens_by_class","rules","productions","onmatch_rules_lookup","tokenizer_pattern","dump"])
p("C24","Calls running at the same time in several threads do not disturb each other",
 "Transliterating, tokenizing, matching, pruning and dumping with one transliterator (coverage-tracking or not) from several threads, in whatever order their steps interleave, gives each call the result it has when made alone. The same holds for calls on several transliterators at the same time.",
 ["schedules","histories"],"every interleaving of the steps of calls made by several threads, and every configuration and input",
 "Tests never use more than one thread, and a schedule that shows a shared intermediate result is one of very many.",
 ["core.py","graphs.py","initialize.py"],[("transliterate/tokenize/match_at","core.py"),("VisitLoggingList/Dict","graphs.py")],["results and exceptions of concurrent calls"],
 [("_input_tokens, _rules, visited sets","last call and coverage, the state that calls write","core.py")])
p("C25","The registry holds exactly the bundled transliterators of the added packages",
 "Adding a directory registers every public class derived from Bundled that a package in it (of a name no loaded module has) holds, once each and after those registered earlier, as attribute, name, iteration item and command-line source; private names, other classes, plain modules and other folders are not registered. A class whose name is already registered is refused with a value error, and transliterators registered earlier stay as they are.",
 ["histories","inputs"],"every sequence of added directories, and every content of their packages",
 "Tests add one fixed package twice.",
 ["transliterators/__init__.py","cli.py"],[("add_transliterators/_skip_class_name","transliterators/__init__.py"),("iter_names/iter_transliterators","transliterators/__init__.py"),("list_bundled/load_transliterator","cli.py")],["add_transliterators","iter_names","iter_transliterators","list-bundled"],
 [("__all__, _transliterators, module attributes","registered names and classes","transliterators/__init__.py")])
p("C26","Misshapen serialized data is refused when loaded; optional parts are optional",
 "Loading an uncompressed dump (dict or JSON, by the library or the command line) in which a required part is missing, a part anywhere (settings, derived lookups, graph nodes, edges and constraints, stored options, version) has a type that cannot be meant, or an unknown key is present raises the validation error and produces no transliterator and no output. So does giving load an unknown or mistyped option. Data whose optional parts (metadata, stored options, lookups, graph, pattern, version) are absent, or null where null is their empty value, loads.",
 ["inputs","configurations"],"every dump of every configuration and every single such defect in it",
 "Tests damage two or three fixed dictionaries; the places and kinds of damage in nested data multiply.",
 ["core.py","schemas.py","graphs.py"],[("GraphTransliteratorSchema, SettingsSchema and nested schemas","schemas.py"),("DirectedGraphSchema/NodeDataSchema/EdgeSchema","schemas.py"),("GraphTransliterator.load/loads","core.py")],["GraphTransliterator.load","GraphTransliterator.loads","transliterate -f json"])
p("C27","Reading never runs code; text that looks like code is only text",
 "No YAML configuration or stored test file, however it is read (string, file, bundled, command line), makes the library construct Python objects, call, import or evaluate anything that it names: YAML asking for this is refused. Tokens, productions, class names and metadata that look like code, format fields or templates are taken literally throughout, and plain YAML is accepted.",
 ["inputs"],"every YAML document with object tags at any place, and every text that looks like code",
 "Tests contain no hostile document; which reader and which place lets one through can only be found by trying many.",
 ["core.py","process.py","transliterators/bundled.py","cli.py"],[("from_yaml/from_yaml_file","core.py"),("_unescape_charnames and easy-reading parsing","core.py"),("load_yaml_tests","transliterators/bundled.py"),("commands reading YAML","cli.py")],["from_yaml","from_yaml_file","load_yaml_tests","commands"])
p("C28","The bundled ITRANS transliterator composes Devanagari correctly",
 "For every text of ITRANS codes, the bundled ITRANS transliterator, loaded from JSON or YAML, reads the longest code each time and writes each consonant as its letter, each vowel as its independent letter or, directly after a consonant, as its dependent sign (nothing for 'a'), and marks, digits and punctuation as their signs. Two consonants directly after one another are joined by exactly one virama, and nothing else inserts one.",
 ["inputs"],"every sequence of ITRANS codes",
 "The stored tests try each rule once; conjuncts, vowels after every kind of neighbour and codes that are parts of others form far more combinations.",
 ["transliterators/itrans_devanagari_to_unicode/","core.py"],[("settings and serialized form","transliterators/itrans_devanagari_to_unicode/"),("GraphTransliterator.transliterate","core.py")],["ITRANSDevanagariToUnicode.transliterate"])
p("C29","make-json writes exactly the JSON of those selected; other commands none",
 "make-json rewrites the JSON file of exactly the registered bundled transliterators it selects: the one whose name is the given name or, with --regex, those whose names match the expression from their start; the file written loads as what the YAML next to it describes. It tells of each selected one, writes none for a transliterator that cannot be made (and fails then), and touches no other file. The other commands change no files.",
 ["inputs","histories"],"every set of registered transliterators, name or expression, and sequence of commands",
 "Tests run make-json for one name in one package; over-selection and wrong targets show only with several packages with similar names.",
 ["cli.py","transliterators/__init__.py"],[("make_json","cli.py"),("other commands","cli.py"),("iter_names","transliterators/__init__.py")],["files of bundled packages before and after a command","output of make-json"])
p("C30","Everything computed is the same in every process",
 "For the same settings and the same calls, the published state, graph, uncompressed dump, tokenization, outputs, rules used, matches (including which of equally specific rules is used, and the order of all matches), prunings, warnings about input and the verdict on ambiguity are the same in every process, whatever the hash seed.",
 ["configurations","inputs","schedules"],"every configuration and input, and every hash seed",
 "Tests run in one process with one hash seed and never compare two.",
 ["core.py","initialize.py","graphs.py","ambiguity.py"],[("sets of classes and tokens","core.py"),("_graph_from/_onmatch_rules_lookup/_tokenizer_pattern_from","initialize.py"),("check_ambiguity","ambiguity.py")],["all results in separate processes"])
p("C31","Every call ends in reasonable time, whatever a text repeats",
 "Reading settings (rule keys, on-match keys, token and class names and version numbers of up to 300 characters, YAML, JSON and named characters of up to 4000), well formed or malformed, and tokenizing or transliterating texts of up to 8000 characters, ends with a result or an exception within ten seconds of CPU time, whatever is repeated in them and however they end. So do building, ambiguity checking, pruning, dumping, loading and coverage checking of rules whose contexts have up to a dozen classes of up to a dozen tokens each.",
 ["inputs","configurations"],"every text made by repeating parts, well formed or not, and every configuration of wide contexts",
 "Tests are short and well formed; time that explodes with repetition shows only on the one shape of text that makes a search go back over and over.",
 ["process.py","initialize.py","core.py","ambiguity.py"],[("RULE_RE/ONMATCH_RE","process.py"),("_tokenizer_pattern_from/_unescape_charnames","initialize.py"),("match_at/transliterate","core.py"),("check_for_ambiguity","ambiguity.py")],["from_easyreading_dict","from_yaml","loads","tokenize","transliterate","pruned_of"])
p("C32","Using the library leaves the rest of the process as it was",
 "Importing the library and using it through its functions, transliterators and commands, in calls that succeed, warn or fail, changes nothing outside it: not the working directory, environment, logging set-up, warning filters, random state, locale, limits, hooks, signal handlers, threads, open files, import path, shared YAML, JSON and schema tables, or files. Calls of the library print nothing.",
 ["histories","inputs"],"every sequence of calls and commands, valid and invalid",
 "Tests look at results of calls, run under a test runner that has set up logging and output itself, and never look at the process around them.",
 ["core.py","ambiguity.py","cli.py","transliterators/__init__.py","transliterators/bundled.py"],[("logging of warnings","core.py"),("logging of ambiguity","ambiguity.py"),("commands","cli.py"),("yaml and json reading","core.py")],["state of the process before and after calls"])
p("C33","The public schemas read what they write, alone and with many",
 "The schema classes the package publishes dump rules, on-match rules, whitespace rules, graphs and transliterators to plain data and JSON from which they load equal objects, one at a time or as a list with many, and leave what they dump or load as it was. The settings schemas load valid settings, in direct or easy-reading form, to what is written in them, with rules in order of cost, validate() reports nothing exactly when loading succeeds, and what breaks the schema is refused with a validation error. The schemas of rules and of the metadata of bundled transliterators validate in the same way.",
 ["configurations","inputs"],"every configuration, and objects of it alone and in lists",
 "Tests use the schemas through the transliterator only, never as a list, and on fixed settings.",
 ["schemas.py","core.py"],[("TransliterationRuleSchema/OnMatchRuleSchema/WhitespaceSettingsSchema","schemas.py"),("SettingsSchema/EasyReadingSettingsSchema","schemas.py"),("DirectedGraphSchema","schemas.py"),("GraphTransliteratorSchema","core.py")],["dump","dumps","load","loads","validate of each schema"])
p("C34","A tracker of a graph reports as missed exactly what was not read",
 "After any sequence of reads and other uses of a visit-logging graph, its coverage check names exactly the nodes and edges that were not read by index since it was made or last cleared, raising the coverage exception, or returning false without raising, exactly when there are any. Going through everything, measuring, asking for costs and reading what does not exist count as no read. Reads give the data of the graph, change nothing in it, and, like making another tracker from it, do not show in other trackers of the same graph.",
 ["histories","configurations"],"every graph and every sequence of reads, checks and clearings of several trackers of it",
 "Tests visit parts of one small graph in one order, through one tracker.",
 ["graphs.py"],[("VisitLoggingDirectedGraph.check_coverage/clear_visited","graphs.py"),("VisitLoggingList/VisitLoggingDict","graphs.py")],["VisitLoggingDirectedGraph.check_coverage","node","edge","clear_visited"],
 [("visited","what was read","graphs.py")])
p("C35","A run of tests passes exactly when every test is true",
 "Running tests with a transliterator, given as a mapping or stored in its test file, by the library or the command line, succeeds when for every test the transliterator gives exactly the expected output, and otherwise fails: with an assertion error that names a wrong test and what was expected, or with the exception of an input that cannot be transliterated. Stored tests are read as exactly the pairs of texts written in the file. A run changes neither the tests nor the transliterator, and covers of it exactly what transliterating the inputs covers.",
 ["inputs","configurations","histories"],"every transliterator and every collection of right and wrong tests",
 "Tests run the stored tests, which are all right, and one wrong one.",
 ["transliterators/bundled.py","cli.py"],[("Bundled.run_tests/run_yaml_tests/load_yaml_tests","transliterators/bundled.py"),("command test","cli.py")],["run_tests","run_yaml_tests","load_yaml_tests","graphtransliterator test"])
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert len(re.findall(r"\.(?:\s|$)",x["statement"]))<=3,x["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
