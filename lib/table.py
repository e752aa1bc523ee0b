"""The listed properties, and the MANIFEST entries of their checks.  lib/mk.py writes the two files from it."""
API = "libhfst/src/HfstTransducer.cc"
IMPL = ["libhfst/src/implementations/TropicalWeightTransducer.cc", "libhfst/src/implementations/SfstTransducer.cc",
        "libhfst/src/implementations/FomaTransducer.cc", "libhfst/src/implementations/LogWeightTransducer.cc"]
BASIC = "libhfst/src/implementations/HfstBasicTransducer.cc"
T = []


def P(pid, title, statement, over, text, why, files, mech, technique, note, observe=(), level="model_checking"):
    T.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), level=level))


TRACE = "TLA+ trace validation with TLC: random programs run on the built library, every logged result checked against the specified relation"

P("C01", "Rational operations compute the rational closure",
  "Concatenation, union, Kleene star and plus, optionality, n-fold, at-most-n, at-least-n and n-to-k repetition, inversion, reversal and the two projections give "
  "exactly the relation that regular algebra defines from their operands, with path weights added along a path and the least weight kept per string pair. "
  "This holds for any sequence of these operations, on every back end, and an operation never alters its argument.",
  ["inputs", "histories"], "every pair of transducers (cyclic, with epsilons, weighted, with useless states), every sequence of these operations, every in-tree back end",
  "The tests apply each operation to a few hand-made acyclic transducers and compare two machines that both come from the library.",
  [API] + IMPL, [("unary and binary dispatch", API + ": HfstTransducer::apply"), ("back-end constructions", IMPL[0])],
  TRACE, "Relations are compared inside a window of strings of at most N symbols (3, thorough 4), where the specification is exact; the harness's dump of a transducer is trusted.")

P("C02", "Composition is relational composition",
  "Composing two transducers yields exactly the pairs (x,z) for which some y has (x,y) in the first and (y,z) in the second, the weight of a pair being the least sum over such y. "
  "Epsilons on either side neither lose nor duplicate pairs, symbols that only one operand knows are matched by the other's identity or unknown transitions, and the argument is left unchanged.",
  ["inputs"], "every pair of transducers over possibly different alphabets, with epsilon, identity and unknown arcs on either tape and cycles",
  "Tests compose a handful of concrete strings; the failing cases lie in the interplay of epsilons, alphabets and special symbols.",
  [API] + IMPL[:3], [("compose and harmonization", API + ": HfstTransducer::compose"), ("tropical compose", IMPL[0] + ": compose")],
  TRACE, "Exact inside the window N (3, or 2 with special symbols). Known finding KF1 (unknown:unknown in the middle) is excluded from generation and reported.")

P("C03", "Intersection, difference and complement are Boolean",
  "Intersection and subtraction of transducers give the intersection and the difference of their sets of symbol-pair strings (for automata: of their languages), and negation gives the complement "
  "with respect to all strings over known and unknown symbols; weights of kept paths are those of the operands. Negating a transducer that is not an automaton is refused with an exception rather than answered wrongly.",
  ["inputs"], "every pair of transducers over possibly different alphabets, every automaton", "Complement and difference quantify over all strings; tests look at a few.",
  [API] + IMPL[:3], [("subtract / negate", API + ": HfstTransducer::subtract, negate"), ("insert missing symbols before subtraction", API + ": harmonize")],
  TRACE, "Exact inside the window; weighted operands are acyclic because weighted determinization need not terminate otherwise.")

P("C04", "Cross product, shuffle, priority union, lenient composition, free insertion",
  "The cross product relates every string of the first language to every string of the second; shuffle gives all interleavings; priority union adds the pairs of the second relation whose input the first does not accept; "
  "lenient composition keeps an input unchanged-by-the-second exactly when the composition gives it no output; free insertion allows the given pair, or any string pair of the given transducer, at every position. "
  "Cross product and shuffle refuse transducers that are not automata.",
  ["inputs"], "every pair of transducers over possibly different alphabets", "Each operation has one or two sample inputs in the tests.",
  [API, BASIC], [("operation definitions", API + ": cross_product, shuffle, priority_union, lenient_composition, insert_freely"), ("state-wise insertion", BASIC + ": insert_freely")],
  TRACE, "Exact inside the window.")

P("C05", "Optimizing operations keep the relation and reach their normal form",
  "Determinization, minimization, optimization, epsilon removal, pruning, weight and label pushing and alphabet pruning never change which weighted string pairs a transducer accepts. "
  "The determinized result has no epsilon and no two equally labelled arcs from a state, the minimized unweighted result has additionally no fewer-state equivalent, the epsilon-free result has no epsilon arcs, and the pruned result has only states on accepting paths.",
  ["inputs", "histories"], "every transducer and every sequence of these operations", "Tests check a few machines by comparing the library with itself.",
  [API, BASIC] + IMPL[:3], [("optimisation dispatch", API), ("tropical determinize / minimize with encoding", IMPL[0])],
  TRACE, "Equivalence inside the window; the structural guarantees exactly. Weighted inputs acyclic.")

P("C06", "Unknown and identity symbols cover exactly the symbols not known",
  "When transducers with different alphabets are combined, an identity arc of one stands for every symbol it does not know mapped to itself and an unknown arc for every pair of different such symbols, including symbols that only the other operand knows, and never for symbols of its own alphabet. "
  "The combined transducer knows every symbol either operand knew.",
  ["inputs", "histories"], "every combination of alphabets (also symbols that occur in no arc) and special arcs, every binary operation",
  "The interplay of two alphabets with special arcs is combinatorial; tests sample a few combinations.",
  [API, BASIC], [("harmonization", API + ": HfstTransducer::harmonize_"), ("expansion of special arcs", BASIC + ": harmonize / insert_missing_symbols")],
  TRACE, "Universe = all known symbols plus two fresh ones, which is enough to tell identity from unknown.")

P("C07", "Conversion between back ends keeps the transducer",
  "Converting a transducer to another back end or to and from the basic transducer format, any number of times, keeps its relation, its alphabet and, where the target has weights, its weights; the reported type is the requested one.",
  ["inputs", "histories"], "every transducer (special symbols, multi-character and non-ASCII symbols, unreachable states, weights) and every chain of conversions", "Tests convert a few small transducers.",
  ["libhfst/src/implementations/ConvertTransducerFormat.cc", "libhfst/src/implementations/ConvertSfstTransducer.cc", "libhfst/src/implementations/ConvertFomaTransducer.cc",
   "libhfst/src/implementations/ConvertTropicalWeightTransducer.cc", "libhfst/src/implementations/ConvertLogWeightTransducer.cc"],
  [("per-type conversion functions", "libhfst/src/implementations/Convert*.cc"), ("symbol number harmonization", "libhfst/src/implementations/ConvertTransducerFormat.cc")],
  TRACE, "Relation compared in the window, alphabet via the meaning of special arcs and via the alphabet query.")

P("C08", "Substitution replaces exactly the designated labels",
  "Substituting symbols, symbol pairs, sets of pairs, maps of symbols or pairs, or a pair by a transducer changes exactly the arcs whose label is designated, all of them simultaneously, keeps every other arc and all weights, and distinguishes the input from the output side as requested.",
  ["inputs", "histories"], "every transducer, every substitution (also to epsilon, of absent symbols, and chains such as a->b, b->a)", "Tests substitute in two or three fixed machines.",
  [API, BASIC], [("substitute overloads", API + ": HfstTransducer::substitute"), ("arc rewriting", BASIC + ": substitute_*")],
  TRACE, "Exact inside the window.")

P("C09", "Weights follow the tropical semiring; n_best keeps the best paths",
  "Weights add along a path and the least weight is kept among alternatives in every operation, also after pushing, determinizing or transforming weights; setting or transforming weights changes exactly the weights concerned. "
  "Asking for the n best paths yields min(n, number of paths) paths of the transducer, none of which is worse than a path left out.",
  ["inputs"], "every weighted transducer and every n", "Tests use few weights, most of them zero.",
  [IMPL[0], API], [("n best via shortest paths", IMPL[0] + ": n_best"), ("weight pushing and setting", IMPL[0])],
  TRACE, "Weights are multiples of 0.25; n_best on acyclic epsilon-free machines, exact.")

P("C21", "The xfst shell is a stack machine whose commands mean what they say",
  "Every command of the xfst shell replaces its operands on the network stack by the network the operation defines (n-ary operations fold from the top, definitions and functions are values of the moment), leaves all other networks alone, and a test, application or listing changes nothing and answers correctly. "
  "Saving and loading gives the stack back. A command that is ill-formed or cannot be executed is refused and leaves the stack and the shell usable.",
  ["programs", "histories"], "every sequence of xfst commands, every back end",
  "The result of a command depends on everything the session pushed, defined and saved before it; tests run a few fixed scripts and compare listings.",
  ["libhfst/src/parsers/XfstCompiler.cc", "libhfst/src/parsers/xfst-parser.yy", "libhfst/src/parsers/xfst-lexer.ll", "libhfst/src/parsers/xfst-utils.cc"],
  [("operations on the stack", "libhfst/src/parsers/XfstCompiler.cc: apply_unary_operation, apply_binary_operation, apply_binary_operation_iteratively"), ("tests, listings, application", "libhfst/src/parsers/XfstCompiler.cc: test_uni, test_equivalent, print_words, apply"), ("definitions, files", "libhfst/src/parsers/XfstCompiler.cc: define, define_function, save_stack, load_stack"), ("commands", "libhfst/src/parsers/xfst-lexer.ll, xfst-parser.yy")],
  TRACE, "Xfst.tla has one action per command; relations compared inside a window of 2, tests decided exactly with automata constructions. Listings only of acyclic networks without ?. Known findings KF1 (substitute symbol with itself), KF2 (test identity).")

P("C23", "Compose-intersect equals composing with the intersection of the rules",
  "Composing a lexicon with a sequence of rule transducers in parallel gives the composition of the lexicon with the intersection of the rules, and, when inversion is asked for, the composition of the intersection with the lexicon; with no rules the result is empty.",
  ["inputs", "programs"], "every lexicon (epsilons, weights, identities) and every number of deterministic rules", "Tests run one lexicon against a few rules.",
  [API, "libhfst/src/implementations/compose_intersect/ComposeIntersectLexicon.cc", "libhfst/src/implementations/compose_intersect/ComposeIntersectRule.cc",
   "libhfst/src/implementations/compose_intersect/ComposeIntersectRulePair.cc", "libhfst/src/implementations/compose_intersect/ComposeIntersectFst.cc"],
  [("lazy product of lexicon and rules", "libhfst/src/implementations/compose_intersect/"), ("set-up, harmonization, inversion", API + ": HfstTransducer::compose_intersect")],
  TRACE, "Exact inside the window; documented precondition (deterministic epsilon-free rules) respected. Rules over different alphabets with identities in the lexicon: known finding KF1.")

P("C29", "Equivalence test, predicates and copies tell the truth",
  "Two transducers compare equal exactly when they accept the same symbol-pair strings with the same weights, whatever their construction history; cyclicity, automaton-ness, infinite ambiguity, size, alphabet and weightedness are reported as they are. "
  "Copies and assignments are independent: changing one object never changes another, and asking never changes the answer.",
  ["inputs", "histories"], "every pair of transducers reached by different histories", "Equality of infinite relations cannot be sampled; tests use compare as their own oracle.",
  [API, BASIC] + IMPL[:3], [("compare", API + ": HfstTransducer::compare"), ("copy and assignment", API + ": HfstTransducer::operator=")],
  "TLA+ trace validation with TLC: answers compared with exact decision procedures in the specification (subset-pair search for equivalence)",
  "Equivalence of unweighted relations is decided exactly (no bound); weighted ones exactly on acyclic machines.")

P("C17", "The basic transducer is an exactly editable automaton",
  "Every editing operation of HfstBasicTransducer (states, arcs, final weights, alphabet, substitution, purging, completion, sorting) has exactly its documented effect on the machine and no other, whatever edits came before. "
  "Operations that graft another machine (substitution of a pair by a graph, inserting a transducer, adding a path to a trie), intersection and harmonization give exactly the specified weighted relation. "
  "Queries report what the machine determines, change nothing, and calls about absent states are refused.",
  ["histories", "inputs"], "every sequence of edits and queries on any machines and any other register", "Interactions of edits (iterator invalidation, stale alphabets, out-of-order states) only show in sequences no test tries.",
  ["libhfst/src/implementations/HfstBasicTransducer.cc", "libhfst/src/implementations/HfstBasicTransducer.h", "libhfst/src/implementations/HfstBasicTransition.h"],
  [("editing and query functions", "libhfst/src/implementations/HfstBasicTransducer.cc"), ("harmonization", "libhfst/src/HarmonizeUnknownAndIdentitySymbols.cc")],
  "TLA+ trace validation with TLC: each edit is a transition with exactly one successor state",
  "Edits exact (state for state); grafts up to state numbers inside the window of strings; infinite ambiguity and negative epsilon cycles decided exactly.")

P("C10", "Path extraction lists exactly the paths asked for",
  "Extracting paths from a transducer returns every accepting path within the requested cycle limit, with its symbols and weight, and nothing else; a maximum number of paths is honoured and reached when enough paths exist, and a cyclic transducer without limits is refused. "
  "Paths that obey flag diacritics are exactly those whose flag operations succeed in sequence. "
  "Shortest paths, longest paths and random paths are paths of the transducer with their true weights, and extraction never changes the transducer.",
  ["inputs"], "every transducer on every back end, every combination of limits, flag obedience and filtering",
  "Tests extract from a few acyclic machines; off-by-one limits and weights on cut paths depend on the shape of the machine.",
  [API, BASIC] + IMPL, [("extract_paths recursions", IMPL[0] + ": extract_paths"), ("random paths", IMPL[0] + ": random_path_"), ("longest paths", API + ": HfstTransducer::extract_longest_paths")],
  TRACE, "Exact: the specification enumerates the accepting walks of the machine. Longest paths with input epsilons: known finding KF1; libfoma and log random paths with flags are not offered by the library.")

P("C11", "Flag diacritics mean the same everywhere",
  "Looking up, extracting and counting paths with flags obeyed, eliminating flags (all or of one feature), harmonizing the flags of two operands and pruning illegal flag combinations all agree on one semantics of the P, N, R, D, C and U operations. "
  "Eliminating flags leaves exactly the string pairs whose flag sequence succeeds, and harmonized operands keep their meaning through composition, intersection and concatenation.",
  ["inputs", "histories"], "every transducer with flags of every operation, over any features and values, cyclic or not, on every back end",
  "Tests use single features in fixed order; the failing cases are combinations of operations (N then U, a lone R, several features).",
  [API, "libhfst/src/HfstFlagDiacritics.cc", "libhfst/src/HfstFlagDiacritics.h", BASIC],
  [("flag filter construction", API + ": flag_build, get_flag_filter"), ("run-time flag states", "libhfst/src/HfstFlagDiacritics.h: FdState::apply_operation"), ("harmonization and pruning", API + ": harmonize_flag_diacritics, remove_illegal_flag_paths")],
  TRACE, "The specification turns flags into states (feature, polarity, value) and compares relations inside a window of strings. D after N with another value: known finding KF1.")

P("C12", "Lookup in a basic transducer finds exactly the analyses",
  "Looking up a tokenized word in an HfstBasicTransducer returns exactly the paths that read it, each with its input, output and weight: epsilons and flags are free moves, identity and unknown arcs match symbols outside the alphabet, at most the given number of epsilon cycles is taken in a row and no path heavier than the given weight is returned. "
  "It is reported as infinitely ambiguous exactly when free moves can go on for ever while reading it.",
  ["inputs"], "every basic transducer, word, cycle limit, weight limit and result limit", "Cycles of epsilons and limits interact with the shape of the machine; tests look up a few words.",
  [BASIC], [("lookup recursion", BASIC + ": lookup"), ("infinite ambiguity", BASIC + ": is_lookup_infinitely_ambiguous")],
  TRACE, "Exact for the given word: the specification enumerates all configurations of the search.")

P("C13", "The optimized-lookup format keeps the relation and looks it up faithfully",
  "Converting a transducer to the optimized-lookup formats and back preserves its relation and weights, and looking up a string returns exactly the outputs (with weights) of the relation for the longest-match tokens of the string, flags obeyed and unknown characters matched by identity and unknown arcs. "
  "A limit bounds the number of results, infinite ambiguity is reported correctly, and no lookup changes the transducer or later answers, also after storing and reloading it.",
  ["inputs", "histories"], "every transducer and every sequence of lookups, conversions and reloads on one object",
  "Index packing, multi-byte and multi-character symbols, and state kept between lookups show only for particular machines and sequences.",
  ["libhfst/src/implementations/ConvertOlTransducer.cc", "libhfst/src/implementations/optimized-lookup/transducer.cc", "libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc",
   "libhfst/src/implementations/optimized-lookup/convert.cc", API],
  [("table construction", "libhfst/src/implementations/ConvertOlTransducer.cc"), ("lookup", "libhfst/src/implementations/optimized-lookup/transducer.cc: get_analyses"), ("tokenization", "libhfst/src/implementations/optimized-lookup/transducer.cc: initialize_input")],
  TRACE, "Lookups exact for the given strings; back conversion compared inside a window. Lookups of infinitely ambiguous strings only as a yes/no question. Known findings KF1 (output-only symbols under identity), KF2 (token vectors are joined).")


P("C14", "What is written to a transducer stream is what is read back",
  "Transducers written one after another to an HfstOutputStream are read back by an HfstInputStream in the same order, each with the type, relation, weights, alphabet, name and properties it had, whether or not the file was concatenated from others; after the last one the stream reports its end. "
  "A truncated or foreign file is refused with an exception and never yields a wrong transducer, a crash or a hang, and writing a transducer of another type or to a closed stream is refused.",
  ["inputs", "histories", "crash_points"], "every sequence of transducers of every type, names and properties, every concatenation and truncation of the files, every order of reading calls",
  "Tests store and reload single transducers; state that leaks from one transducer to the next and files cut at an arbitrary byte are not sampled.",
  ["libhfst/src/HfstInputStream.cc", "libhfst/src/HfstOutputStream.cc"] + IMPL, [("header parsing and type detection", "libhfst/src/HfstInputStream.cc: read_hfst_header, stream_fst_type"), ("header writing", "libhfst/src/HfstOutputStream.cc: append_hfst_header_data"), ("back-end readers", IMPL[2] + ": read_net")],
  TRACE, "The specified state is a file as a sequence of records plus open handles. Relations compared inside a window; files are cut at up to 30 bytes from the end.")


P("C15", "AT&T and prolog text denote the transducer they were written from",
  "Writing a transducer in AT&T or prolog format, by any of the interfaces and with or without weights, gives text that denotes exactly its relation and weights (prolog: also its alphabet), and does not change it; reading such text, or any text of the format, from a FILE or an istream gives exactly the transducers it denotes, in order, up to the end. "
  "Epsilons, identities, spaces, tabs, quotes, backslashes and long symbols survive, and a line that is not of the format is refused with the exception of that format.",
  ["inputs"], "every transducer and symbol, every sequence of transducers in one file, every well-formed text and one malformed line in it",
  "Tests print a few machines with one-letter symbols; escapes, buffer sizes and the stream interfaces depend on unusual symbols.",
  [BASIC, API], [("AT&T", BASIC + ": write_in_att_format, add_att_line, read_in_att_format"), ("prolog", BASIC + ": write_in_prolog_format, read_in_prolog_format")],
  TRACE, "The harness splits lines into fields and tokens; the specification undoes the escapes and builds the denoted machine, compared inside a window. Known findings KF1 (%0 in prolog), KF2 (newlines in symbols).")


P("C16", "Tokenization takes the longest symbol, and strings become transducers faithfully",
  "A tokenizer splits a UTF-8 string from left to right, taking the longest multicharacter symbol that the rest begins with and otherwise one grapheme (or one character if asked), leaves out skip symbols, and aligns two strings symbol by symbol with epsilons at the end of the shorter one. "
  "Bytes that are not UTF-8 are refused, and a transducer built from strings, symbols, symbol pairs or sets of pairs accepts exactly those on every back end.",
  ["inputs", "histories"], "every set of multicharacter and skip symbols in any order of addition, every string over one- to four-byte characters and combining marks",
  "Backtracking from a partial match of a longer symbol and combining characters depend on the symbols added and the string together.",
  ["libhfst/src/HfstTokenizer.cc", API] + IMPL, [("symbol trie", "libhfst/src/HfstTokenizer.cc: MultiCharSymbolTrie::find"), ("graphemes", "libhfst/src/HfstTokenizer.cc: get_next_symbol_size"), ("string constructors", API + ": HfstTransducer(const std::string&, const HfstTokenizer&, ImplementationType)")],
  TRACE, "Tokens exact; graphemes modelled as a character with its combining marks. Transducers compared inside a window.")


P("C18", "Compiling a lexc lexicon gives the paths of its continuation graph",
  "Compiling a lexc grammar gives exactly the weighted relation of its continuation graph: the concatenations, from the initial lexicon to #, of its entries' strings or pairs (divided into the longest declared multicharacter symbols), regular expressions and weights, whatever the lexicons are called, in whichever order and pieces they come, and whichever back end, alignment or flag encoding is used. "
  "An ill-formed file is refused, and neither it nor files compiled earlier change what the compiler gives later.",
  ["inputs", "programs", "histories"], "every lexc grammar, every sequence of files, resets and compilers in a process, every back end, with or without flags and alignment",
  "The result depends on all entries of a grammar together (declared symbols, shared continuations, cycles, undefined lexicons, regular expressions) and on what the process compiled earlier; tests compile a few fixed files, one per process.",
  ["libhfst/src/parsers/LexcCompiler.cc", "libhfst/src/parsers/lexc-lexer.ll", "libhfst/src/parsers/lexc-parser.yy", "libhfst/src/parsers/lexc-utils.cc", "libhfst/src/HfstStrings2FstTokenizer.cc", "libhfst/src/HfstTokenizer.cc"],
  [("entries, compilation", "libhfst/src/parsers/LexcCompiler.cc: addStringEntry, addStringPairEntry, addXreEntry, compileLexical"), ("escapes, joiners", "libhfst/src/parsers/lexc-utils.cc"), ("tokens", "libhfst/src/parsers/lexc-lexer.ll")],
  TRACE, "Lexc.tla keeps declared symbols, definitions and lexicons as the state of a compiler, builds the machine of the graph and compares relations inside a window of 3 (2 with expressions over any symbol). Weights only in acyclic graphs; no NOFLAGS section; flag diacritics as data only without flag encoding.")

P("C19", "A regular expression denotes the relation the operators define",
  "Compiling a Xerox-style regular expression gives exactly the relation that its operators define over all strings of symbols: ? is every symbol, ~ and \\ complement with respect to all symbols, and =>, $, /, <, >, .o., .x., .O., .P., .p., powers, projections and weights mean what the notation says, with its precedences, quoting and comments, named definitions and functions. "
  "An ill-formed expression is refused and leaves the compiler usable.",
  ["inputs", "programs", "histories"], "every well-formed expression, every sequence of definitions, functions and compilations, every back end, symbols inside and outside the expression",
  "An expression nests operators arbitrarily and speaks about symbols that occur nowhere in it; tests compile fixed expressions and compare with recorded machines.",
  ["libhfst/src/parsers/xre_parse.yy", "libhfst/src/parsers/xre_lex.ll", "libhfst/src/parsers/xre_utils.cc", "libhfst/src/parsers/XreCompiler.cc", "libhfst/src/HfstXeroxRules.cc"],
  [("grammar actions", "libhfst/src/parsers/xre_parse.yy"), ("containment, labels, definitions", "libhfst/src/parsers/xre_utils.cc"), ("restriction, before, after", "libhfst/src/HfstXeroxRules.cc: restriction, before, after")],
  TRACE, "Regex.tla evaluates the syntax tree with machine constructions (subset construction for complements) and is exact; compiled and specified relation are compared inside a window (3, or 2 for relations over any symbol). Boolean operators and ignoring on automata only. Known finding KF1 (C02's composition of unknowns).")


P("C20", "A replace rule rewrites exactly the factors that its contexts admit",
  "A replace rule relates every string to the strings in which the factors its mappings name are replaced wherever a context admits it: all of them or optionally (->, (->), and inverted), or from the left or right at the longest or shortest factor (@->, @>, ->@, >@), with contexts on the side that ||, //, \\\\ and \\/ name, word boundaries, markup, insertion, parallel rules and weights. "
  "Symbols that the rule does not mention are copied, and an ill-formed rule is refused.",
  ["inputs", "programs"], "every rule with any number of mappings, contexts and parallel rules, every input string, every back end",
  "Which factors are replaced depends on overlaps of centers, contexts and earlier replacements in the string; tests compile a few rules and compare with recorded machines.",
  ["libhfst/src/HfstXeroxRules.cc", "libhfst/src/HfstXeroxRules.h", "libhfst/src/parsers/xre_parse.yy"],
  [("bracketing and contexts", "libhfst/src/HfstXeroxRules.cc: bracketedReplace, parallelBracketedReplace, expandContextsWithMapping"), ("constraints", "libhfst/src/HfstXeroxRules.cc: leftMostConstraint, longestMatchRightMostConstraint, mostBracketsStarConstraint"), ("word boundaries", "libhfst/src/HfstXeroxRules.cc: applyBoundaryMark")],
  TRACE, "ReplaceSem.tla cuts each string of the window into copied symbols and replaced factors and is exact on strings up to length 3. Weighted rules only where the image differs from the factor. Known finding KF1 (lower contexts with several images).")
