PY = "py/latkerlo_jvotci/"
NOTES = "All checks are static: sa/run.py parses /repo's current source, nothing of /repo is imported or executed. Exit 2 means the analysis has no answer (an anchor function vanished, or a construct has no transfer function)."
TRUST = "Trusted: the rule's implementation in /verif/sa and Python's documented semantics. "

PROPS = [
 dict(id="P01", title="No call path can hit an undefined name or an ill-fitting internal call",
      statement="In every module of the Python library, each name a statement uses is bound wherever control can reach it, each local is assigned on every path before it is read, each imported name exists, every internal call passes arguments its callee accepts, and every tuple result is unpacked at the length returned. So no input or option combination makes the library fail with NameError, UnboundLocalError, ImportError or an argument-count TypeError.",
      quant="every statement of every function, whatever input reaches it", over=["inputs", "programs"],
      why="Python binds names when a line runs: a rarely reached line with an unimported helper passes every test that does not reach it (get_lujvo had exactly this bug).",
      files=[PY + "*.py"], mech=[("module imports and star imports", PY + "jvozba.py, katna.py, tools.py"), ("deferred imports inside functions", PY + "tools.py analyse_brivla, is_slinkuhi")],
      technique="scope resolution, definite-assignment dataflow, call/callee signature matching over the AST",
      note=TRUST + "Sound for direct calls and names; dynamic attribute access is outside it (none is used)."),
 dict(id="P02", title="Only the documented error types escape the public functions",
      statement="For any string input and any options, decomposition and classification (get_veljvo, score_lujvo, analyse_brivla) fail only with NotBrivlaError or, for get_veljvo and score_lujvo, DecompositionError; is_brivla never fails; lujvo construction fails only with NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError or NotZihevlaError (TypeError when the tanru is neither string nor list).",
      quant="all strings, all option values, all raise sites and handlers on the call graph",
      why="Which error class escapes depends on rarely met combinations of inner failures; a test sees one path at a time.",
      files=[PY + "tools.py", PY + "katna.py", PY + "jvozba.py", PY + "tarmi.py"], mech=[("exception handlers", PY + "tools.py analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi"), ("error conversion", PY + "jvozba.py get_rafsi_list_list; " + PY + "katna.py jvokaha")],
      technique="interprocedural exception-effect analysis (raise sites propagated through handlers to a fixpoint) plus abstract interpretation for string/list index safety",
      note=TRUST + "Explicit raises, assertions, next/index/dict lookups are followed through all calls; four reviewed call edges carry a written argument why a class cannot occur (sa/rules/raises.py BARRIERS)."),
 dict(id="P03", title="Options reach every inner step that has them",
      statement="Whenever one part of the library calls another that takes one of the documented options (cmevla generation, y-hyphen rule, experimental rafsi shapes, consonant rule, glides, mz), it passes on the very value its own caller gave it, except at a fixed list of reviewed calls where the design (shared with the TypeScript and Rust ports) uses the default. So an option changes the verdict of every stage, not just of some.",
      quant="every internal call site and option, for all option values", over=["inputs", "configurations"],
      why="144 option combinations times all words: a dropped or swapped option only shows on words whose verdict depends on it at that one stage.",
      files=[PY + "tools.py", PY + "katna.py", PY + "jvozba.py"], mech=[("option parameters", PY + "jvozba.py get_lujvo_from_list, get_rafsi_list_list, combine"), ("decomposition options", PY + "katna.py jvokaha, jvokaha_2, get_veljvo; " + PY + "tools.py")],
      technique="interprocedural parameter-flow (taint-style) analysis of option values over all call sites",
      note=TRUST + "Exact for positional, keyword, *args/**kwargs of literal containers, aliases and helper parameters."),
 dict(id="P04", title="Public functions keep their documented parameters, order and defaults",
      statement="Each public function accepts its documented parameters by position in the documented order and by name, with the documented defaults (no cmevla, STANDARD y-hyphens, no experimental shapes, CLUSTER consonants, no glides, no mz); the inner functions taking the same options share these defaults. The option and word-type constants have their documented text values, and the six exception classes are exported, derive from Exception and none derives from another.",
      quant="every documented parameter, constant and exception class", over=["configurations", "programs"],
      why="Tests call with a handful of shapes; a changed default or swapped pair of parameters silently changes results for callers using positions or defaults.",
      files=[PY + "__init__.py", PY + "jvozba.py", PY + "katna.py", PY + "tools.py", PY + "tarmi.py", PY + "exceptions.py"], mech=[("public signatures", PY + "jvozba.py get_lujvo, get_lujvo_with_analytics; " + PY + "katna.py get_veljvo, score_lujvo; " + PY + "tools.py")],
      technique="signature query over the AST with constant folding of defaults", note=TRUST + "Complete: every documented parameter is compared."),
 dict(id="P05", title="Linguistic tables are the same in Python, TypeScript, JavaScript and Rust",
      statement="The permitted consonant pairs, initial pairs, zi'evla initial pairs, banned triples, vowel syllables, hyphens and the whole rafsi dictionary (same words, same rafsi in the same order) are identical in the Python package, the TypeScript source, the published JavaScript and the Rust crate.",
      quant="every table entry of every port", over=["inputs", "programs"],
      why="8000 dictionary entries in four languages; the test lists mention a fraction and run one port each.",
      files=[PY + "data.py", PY + "rafsi.py", "js/src/data.ts", "js/src/rafsi.ts", "js/docs/data.js", "js/docs/rafsi.js", "rs/src/data.rs", "rs/src/rafsi.rs"],
      mech=[("cluster tables", PY + "data.py"), ("rafsi dictionary", PY + "rafsi.py")],
      technique="constant folding of the Python tables, declaration scanning of the other ports, entry-wise comparison", note=TRUST + "Complete comparison of all entries."),
 dict(id="P06", title="Cluster and syllable tables are exactly Lojban's phonotactics",
      statement="A consonant pair is in the permitted table exactly when Lojban's pair rules allow it (no doubles, no voiced/unvoiced mix, no two sibilants of c j s z, not cx kx xc xk), mz being the only addition of the mz option; the initial table is the 48 CLL initial pairs, the banned triples are ndj ndz ntc nts, and the vowel tables are the nine nuclei and their i/u-glide forms.",
      quant="all 289 consonant pairs and all table entries",
      why="Table membership decides every word's validity; tests touch only the pairs that occur in their words.",
      files=[PY + "data.py"], mech=[("VALID, MZ_VALID, INITIAL, ZIhEVLA_INITIAL, BANNED_TRIPLES, vowel tables, HYPHENS", PY + "data.py")],
      technique="constant folding of module tables checked against generated phonotactic laws", note=TRUST + "Complete over the tables; the laws are transcribed from CLL 3.6-3.7."),
 dict(id="P07", title="The rafsi dictionary is unambiguous and well formed",
      statement="Every short rafsi in the dictionary has a CVC, CVV, CCV or CV'V shape with a permissible start and diphthong, belongs to exactly one word, and, for a gismu, is made of that gismu's letters in order; every word is listed once, in Lojban letters, and every gismu in it has a permissible cluster.",
      quant="all 2021 words and 1650 rafsi",
      why="A duplicated or malformed rafsi makes decomposition ambiguous only for words using it.",
      files=[PY + "rafsi.py"], mech=[("RAFSI_LIST", PY + "rafsi.py")],
      technique="constant folding of the dictionary and law checking on every entry", note=TRUST + "Complete over the dictionary."),
 dict(id="P08", title="Greedy decomposition neither loses, adds nor reorders letters",
      statement="Whenever the greedy lujvo decomposer returns a list of pieces for a word, under any y-hyphen and mz option, the pieces concatenated in order are exactly the word it was given; on any other word it raises one of its error types and never an index error.",
      quant="all strings over the Lojban alphabet of any length, all y-hyphen and mz options",
      why="Words have unbounded length and the decomposer branches on every prefix; samples cannot cover the branch combinations.",
      files=[PY + "katna.py"], mech=[("jvokaha_2 loop", PY + "katna.py jvokaha_2")],
      technique="abstract interpretation (string-segment domain, widening to a fixpoint) of the decomposer's source",
      note=TRUST + "The shape classifier is abstracted to any result, so the verdict holds whatever it answers. Letters outside the alphabet are not modelled."),
 dict(id="P10", title="Reported rafsi positions point at the rafsi",
      statement="Given a word split into its pieces, get_rafsi_indices returns one (start, end) pair for each piece that is not a hyphen, in order, and each pair spans exactly that piece in the joined word.",
      quant="all piece lists of up to four pieces (each a hyphen or any other string, of any length)",
      why="Offsets drift only for particular hyphen placements and lengths.",
      files=[PY + "tools.py"], mech=[("get_rafsi_indices", PY + "tools.py get_rafsi_indices"), ("hyphen table", PY + "data.py HYPHENS")],
      technique="abstract interpretation (symbolic strings and linear integer facts) against an independent specification",
      note=TRUST + "Piece texts are unbounded; lists are bounded to four pieces."),
 dict(id="P11", title="Index pairs of a built lujvo span its rafsi",
      statement="Each step of lujvo construction that joins a rafsi to the working lujvo keeps the earlier (start, end) pairs and adds exactly one pair, which spans the new rafsi (without its hyphen letters ' and y) in the resulting word, whatever hyphen is inserted and whatever the options.",
      quant="all working lujvo and rafsi (lengths by class: one, three, six or more letters), every hyphen form and option",
      why="An offset error depends on which hyphen is inserted, which depends on option and rafsi shape.",
      files=[PY + "jvozba.py"], mech=[("combine", PY + "jvozba.py combine"), ("strip_hyphens", PY + "tarmi.py strip_hyphens")],
      technique="abstract interpretation of the joining code against an independent specification",
      note=TRUST + "The shape classifiers are abstracted to any answer. Rafsi lengths by class as stated."),
 dict(id="P12", title="Joints in a built lujvo obey the phonotactic rules",
      statement="Whenever lujvo construction joins a rafsi to the working lujvo, the result is the two with at most one hyphen (y, 'y, r or n) between. Without a hyphen, consonants meeting at the joint form a permitted pair (mz only with its option), no banned triple arises, an apostrophe is never left bare and never follows a consonant, and no vowels-only rafsi follows CVV or CVC where it would merge. A y after an apostrophe needs a following apostrophe or a non-standard y option; a n hyphen stands exactly before r; the 'y hyphen exactly replaces r and n under FORCE_Y. A CVC-initial brivla whose joints are all initial pairs may not end in CVC-y or in CVCCV with an initial pair (tosmabru).",
      quant="every joint of every lujvo, all rafsi texts, all options",
      why="Which rule applies depends on letters, shapes and options at one joint; tests sample few joints.",
      files=[PY + "jvozba.py"], mech=[("combine", PY + "jvozba.py combine"), ("cluster tables", PY + "data.py")],
      technique="abstract interpretation of the joining code (all letters as character classes) against an independent specification",
      note=TRUST + "Complete per joint; the property of whole words follows by induction over joints."),
 dict(id="P13", title="Falling-off rafsi get a hyphen and consonants are counted by the option's rule",
      statement="When a brivla begins with a CVV or CV'V rafsi, a hyphen (r, n before r, 'y under FORCE_Y) ties it to the next rafsi, except before CCV in a two-part lujvo, and no other joint gets such a hyphen. Each joint updates the count of consonants as the consonant option says: under CLUSTER a joint counts only where two consonants meet (or consonant and glide, with glides on), where a r/n hyphen is put in, or for a rafsi already counted two; otherwise the rafsi's own count is added, up to two, and under ONE_CONSONANT any count suffices.",
      quant="every joint, all rafsi texts and options",
      why="The count decides eligibility only for rare words of experimental or vowel-heavy rafsi.",
      files=[PY + "jvozba.py"], mech=[("combine", PY + "jvozba.py combine")],
      technique="abstract interpretation of the joining code against an independent specification", note=TRUST + "Complete per joint."),
 dict(id="P14", title="The lujvo score follows the documented formula",
      statement="The score of a rafsi with its hyphens is 1000 per letter, plus 100 per y, minus ten times the rank of its shape (CVCCV 1, CVCC 2, CCVCV 3, CCVC 4, CVC 5, CV'V 6, CCV 7, CVV 8, anything else or a bare hyphen 0), minus its number of vowels; leading and trailing hyphen letters do not affect the shape.",
      quant="all strings of lower-case letters and apostrophes, of any length",
      why="The formula must hold for every piece; tests compare a handful of final scores, which hide compensating errors.",
      files=[PY + "jvozba.py", PY + "tarmi.py"], mech=[("score", PY + "jvozba.py score"), ("shape classifier", PY + "tarmi.py rafsi_tarmi, tarmi_ignoring_hyphen, strip_hyphens")],
      technique="abstract interpretation of the scoring code against an independent transcription of the formula",
      note=TRUST + "All strings are covered by character-class partitions; no bound on length."),
 dict(id="P15", title="A lujvo's score is the sum of its parts' scores, less the tie-break",
      statement="The score reported with a built lujvo grows at each joint by the score of the new rafsi and of the inserted hyphen; for two-part lujvo beginning with CVV followed by CCV, CCVC, CVC or CVCC it is one less (the tie-break). score_lujvo of a word that is a lujvo is the same sum over the word's own pieces less the same tie-break, under the same options, and raises for a word that is not a lujvo.",
      quant="every joint, every rafsi shape pair, all decompositions with sample piece lists",
      why="A double-charged hyphen or misplaced tie-break shifts scores only for some shape pairs.",
      files=[PY + "jvozba.py", PY + "katna.py"], mech=[("combine's running score", PY + "jvozba.py combine, tiebreak"), ("score_lujvo", PY + "katna.py score_lujvo")],
      technique="abstract interpretation of the scoring code against an independent specification", note=TRUST + "score itself is decided by P14."),
 dict(id="P16", title="The search keeps the cheapest candidate of each kind and returns an eligible one",
      statement="Lujvo construction tries every form of each component after every kept candidate, carries each kept candidate on with its own score, consonant count, falling-apart status and index list, keeps of two candidates of the same kind (falling-apart status, consonant count, last letter) the cheaper, and returns, of the final candidates that end as asked (vowel for brivla, consonant for cmevla), cannot fall apart and have enough consonants, the cheapest, with its own score and indices; if there is none, or fewer than two components, it raises NoLujvoFoundError.",
      quant="all outcomes of the joints: any scores, kinds and endings of two competing candidates, two or three components",
      why="A dropped or mixed-up candidate only matters when costs and kinds compete in a certain way.",
      files=[PY + "jvozba.py"], mech=[("get_lujvo_from_list", PY + "jvozba.py get_lujvo_from_list"), ("update_current_best", PY + "jvozba.py update_current_best")],
      technique="abstract interpretation of the search with the joint step replaced by arbitrary outcomes (symbolic scores)",
      note=TRUST + "Joint outcomes are arbitrary (P11-P13 and P15 decide the real joint). Two competing candidates; two or three components."),
 dict(id="P17", title="Calls leave no trace: tables and arguments are never modified",
      statement="No public call changes the module-level tables, default argument objects or any argument its caller passed in, and no result is (or contains) one of the library's own tables or a cached mutable object. So any sequence of calls gives each call the result it would have alone.",
      quant="all functions reachable from the public ones, for every call history", over=["histories", "inputs"],
      why="Damage to a shared table shows only in a later call on another word.",
      files=[PY + "jvozba.py", PY + "katna.py", PY + "tools.py", PY + "tarmi.py"], mech=[("working lists and dictionaries", PY + "jvozba.py get_rafsi_list_list, combine, update_current_best"), ("result lists", PY + "tools.py analyse_brivla; " + PY + "katna.py selrafsi_list_from_rafsi_list")],
      technique="interprocedural alias and mutation-effect analysis", note=TRUST + "Flow-insensitive may-alias analysis: over-approximates mutation of shared objects through names, subscripts, iteration and calls."),
 dict(id="P18", title="Results depend on the arguments only",
      statement="Every public result is a function of the arguments: no public call iterates over or picks from an unordered set, or consults time, randomness, environment, files, input, object identities or hashes. So ties, list orders and chosen words are the same in every run and process.",
      quant="all functions reachable from the public ones, for every run", over=["schedules", "inputs"],
      why="Set order varies with the hash seed between processes; a test run sees one seed.",
      files=[PY + "jvozba.py", PY + "katna.py", PY + "tools.py", PY + "tarmi.py"], mech=[("candidate iteration order", PY + "jvozba.py get_lujvo_from_list"), ("dictionary search order", PY + "katna.py search_selrafsi_from_rafsi")],
      technique="effect analysis: set-typed expression inference and impure-source reachability", note=TRUST + "Set-typed values are inferred through displays, calls, names and module constants."),
 dict(id="P19", title="Spelling variants name the same word",
      statement="Normalisation maps every spelling of a word to the same string: capital letters, h for the apostrophe, commas anywhere and one initial period make no difference; a word already in normal form is unchanged, and letters outside the alphabet or an inner period are kept so that such strings stay invalid.",
      quant="all strings (any length) with any mix of the variants",
      why="Variants combine at any position of words of any length.",
      files=[PY + "tools.py"], mech=[("normalise", PY + "tools.py normalise")],
      technique="abstract interpretation over symbolic strings (arbitrary text around arbitrary variant letters)",
      note=TRUST + "Two variant letters at arbitrary positions in arbitrary text; the per-letter operations used act on each letter independently."),
 dict(id="P20", title="Words and rafsi are classified by shape exactly as documented",
      statement="Every string is classified exactly by its letters: CVC, CVV, CCV, CV'V, CVCC, CCVC, CVCCV, CCVCV, hyphen or other; a gismu is exactly a five-letter CVCCV with a permitted pair (mz only with its option) or CCVCV with an initial pair; a CLL rafsi likewise; vowels, consonants, glides (i/u before a vowel), Lojban-only strings and zi'evla initial clusters are recognised exactly; stripping hyphens removes only edge ' and y.",
      quant="all strings of any length over letters and apostrophe",
      why="Every verdict rests on these predicates; tests only meet the shapes that occur in their words.",
      files=[PY + "tarmi.py"], mech=[("rafsi_tarmi, is_gismu_shape, is_gismu, is_valid_rafsi", PY + "tarmi.py"), ("is_glide, is_only_lojban_characters, strip_hyphens", PY + "tarmi.py")],
      technique="abstract interpretation of the predicates against an independent specification, over all character-class partitions",
      note=TRUST + "Complete for strings over a-z and apostrophe, any length."),
 dict(id="P21", title="Each rafsi is offered exactly in its permitted forms",
      statement="For a rafsi at the start, middle or end of a tanru, construction offers exactly the permitted forms: bare, or with its y, 'y or ' hyphen, as its shape and place require (four-letter and short brivla rafsi need y except at a consonant-final end; long ones stand bare only at the end; CVV and CV'V lead with '); a non-initial rafsi beginning with a non-glide vowel gets a leading apostrophe; and each form carries the consonant count its shape and the consonant and glide options give.",
      quant="all rafsi of every shape, all places, consonant and glide options",
      why="Eleven kinds, three places and six option pairs; an error shows on one combination only.",
      files=[PY + "jvozba.py"], mech=[("get_rafsi_for_rafsi", PY + "jvozba.py get_rafsi_for_rafsi")],
      technique="abstract interpretation against an independent specification of the forms", note=TRUST + "Complete over kinds, places and options; rafsi texts symbolic."),
 dict(id="P22", title="Vowel and consonant runs inside words are split and judged by the rules",
      statement="Splitting a run of vowels either fails with DecompositionError or returns syllables that concatenate to the run, each a permitted nucleus or glide syllable, every later one starting with a glide, and never an i-glide after ai/ei/oi or a u-glide after au. A medial run of at most two consonants is accepted as such, and one of three exactly when its middle is l m n r or it is a valid pair ending in an initial pair.",
      quant="all vowel runs (joining: any length; syllable laws: up to five vowels) and all consonant runs up to three",
      why="Vowel-run combinations grow as 5^n; the test words contain a few.",
      files=[PY + "tarmi.py"], mech=[("split_vowel_cluster", PY + "tarmi.py"), ("is_zihevla_middle_cluster", PY + "tarmi.py")],
      technique="abstract interpretation (string domain with widening) of the splitting code",
      note=TRUST + "Length bounds as stated in the statement's quantifier; longer consonant runs are not judged."),
 dict(id="P23", title="A decomposition counts only if building from its rafsi gives the word back",
      statement="A word is accepted as a lujvo only when it decomposes into at least two rafsi and constructing a lujvo from exactly those rafsi, with the same ending type, gives the same word back (exactly so under FORCE_Y; otherwise up to extra r or n hyphens); the pieces returned are those of the word itself. Failure to construct is reported as DecompositionError. Two piece lists are taken as the same only if they differ in nothing but extra r or n hyphens, and identical lists always are.",
      quant="all decompositions (two or three rafsi; piece lists of up to five pieces), all reconstruction outcomes, all y options",
      why="A slack comparison accepts malformed words only for particular hyphens.",
      files=[PY + "katna.py"], mech=[("jvokaha", PY + "katna.py jvokaha"), ("compare_lujvo_pieces", PY + "katna.py compare_lujvo_pieces")],
      technique="abstract interpretation with decomposer and constructor replaced by arbitrary outcomes", note=TRUST + "Piece counts bounded as stated."),
 dict(id="P25", title="Decomposition yields one component per rafsi, marked by what it is",
      statement="get_veljvo returns, for every piece of the word's own analysis that is not a hyphen and in order, one component: the rafsi's word when the rafsi is known; else the piece itself when it is a brivla; the piece with a trailing hyphen mark when it is a brivla's stem (before a y hyphen, or at the end of the word); else the piece between hyphen marks. A word that is not a lujvo or decomposable cmevla is refused with DecompositionError or NotBrivlaError.",
      quant="all piece lists of up to three pieces, any texts, any dictionary and brivla verdicts",
      why="Marks depend on neighbouring hyphens and verdicts; few words have each combination.",
      files=[PY + "katna.py"], mech=[("selrafsi_list_from_rafsi_list", PY + "katna.py selrafsi_list_from_rafsi_list"), ("get_veljvo", PY + "katna.py get_veljvo")],
      technique="abstract interpretation with dictionary search and brivla test replaced by arbitrary answers", note=TRUST + "Lists bounded to three pieces."),
 dict(id="P26", title="Entry points treat equal requests equally",
      statement="A tanru given as a string means its whitespace-separated words, and as a list its elements; every component is normalised, none lost, added or reordered, and the caller's list is left alone. Any other type raises TypeError. get_lujvo returns the word of get_lujvo_with_analytics (word, score, index list) for the same arguments, given by position or by name.",
      quant="all strings and lists of up to three words, all options",
      why="Whitespace runs, argument styles and two near-duplicate functions multiply beyond samples.",
      files=[PY + "jvozba.py"], mech=[("process_tanru", PY + "jvozba.py process_tanru"), ("wrappers", PY + "jvozba.py get_lujvo, get_lujvo_with_analytics")],
      technique="abstract interpretation against an independent specification (construction replaced by a function distinguishing all arguments)", note=TRUST + "Up to three words of unbounded length; unbounded whitespace."),
 dict(id="P27", title="Words that fail the slinku'i test are never built",
      statement="A built brivla never fails the slinku'i test, and a word is not refused for that reason unless it fails it; the test holds for a string exactly when it starts with a non-vowel and \"to\" put before it decomposes as a lujvo. Cmevla are not tested.",
      quant="all words and decomposition outcomes, all options",
      why="slinku'i arise only for particular first rafsi.",
      files=[PY + "jvozba.py", PY + "tools.py"], mech=[("final test", PY + "jvozba.py get_lujvo_from_list"), ("is_slinkuhi", PY + "tools.py is_slinkuhi")],
      technique="abstract interpretation with construction and decomposition replaced by arbitrary outcomes", note=TRUST + "Decomposition itself is decided by P08 and P23."),
 dict(id="P09", title="Every string gets exactly one word class, by the documented order of tests",
      statement="A word without y that ends in a vowel is a GISMU when it is a gismu, else a LUJVO when it decomposes, else a ZIhEVLA when it passes the zi'evla tests (never a mere rafsi), else not a brivla; one ending in a consonant is a CMEVLA exactly when it decomposes; any other ending, and the empty string, are refused. is_brivla is true exactly for GISMU, ZIhEVLA, LUJVO and EXTENDED_LUJVO (not for CMEVLA or what is refused). is_gismu_or_lujvo is true exactly for strings of at least five letters ending in a vowel that are gismu or decompose.",
      quant="all strings without y, all outcomes of the single tests, all options",
      why="A swapped stage or a wrongly caught error misjudges only words on the border between two classes.",
      files=[PY + "tools.py"], mech=[("analyse_brivla", PY + "tools.py analyse_brivla"), ("predicates", PY + "tools.py is_brivla, is_gismu_or_lujvo")],
      technique="abstract interpretation with the single tests (gismu, decomposition, zi'evla) replaced by arbitrary verdicts",
      note=TRUST + "Words of unbounded length; the single tests are P20, P08/P23 and P24."),
 dict(id="P24", title="Zi'evla and experimental rafsi shapes are judged by the morphology rules",
      statement="check_zihevla_or_rafsi accepts a string exactly when no rule is broken: letters only, apostrophes between vowels, permitted pairs and triples in every consonant run (mz only with the option), a permitted initial cluster at the start, an initial pair at the first run when no vowel precedes, at most one consonant before the first cluster, permitted vowel runs with no glide after a non-vowel, no mere compound of cmavo, at least two syllables (one only as experimental rafsi), four letters as zi'evla, no tail from the first cluster or from a consonant or glide before it that is itself a brivla, no slinku'i. With a cluster it is ZIhEVLA; without one it is RAFSI, refused when a zi'evla is required, when it starts without a consonant and experimental shapes are off, or when it has a consonant elsewhere than at the start.",
      quant="all strings of up to six letters (seven: selected patterns; all of them in the thorough tier), all options, all verdicts of the inner tests",
      why="The rules interact; each shape of word exercises a different subset, and the test words hold few shapes.",
      files=[PY + "tools.py"], mech=[("check_zihevla_or_rafsi", PY + "tools.py check_zihevla_or_rafsi")],
      technique="abstract interpretation over every consonant/vowel/apostrophe pattern against an independent statement of the rules, inner brivla and slinku'i tests replaced by arbitrary verdicts",
      note=TRUST + "Bounded word length as stated; letters symbolic."),
 dict(id="P28", title="Words joined with y are accepted only unit by unit and get the right class",
      statement="A word with y hyphens is classed as CMEVLA exactly when it ends in a consonant, else as EXTENDED_LUJVO (or LUJVO when it decomposes as a plain one), and its pieces join to the word. It is refused when a unit between the y's is neither a rafsi nor a zi'evla (or its stem), when an apostrophe does not stand between vowel and y or y and vowel, when a non-final unit is a lujvo's stem, when the first unit would fall apart (tosmabru), when the word is slinku'i, when under STANDARD a CVV or CV'V before the first cluster would fall off, and when it has no cluster while one is required, or too few consonants otherwise. A word of two well-formed units that breaks no rule is accepted.",
      quant="words of two units (13 shapes each) and of three (the shapes that carry state), all letters, all options, all verdicts of the inner tests",
      why="State carried from unit to unit (first cluster, consonant count, initial falls-off) fails only for particular sequences of shapes.",
      files=[PY + "tools.py"], mech=[("y branch", PY + "tools.py analyse_brivla")],
      technique="abstract interpretation, one harness per shape of the first unit, inner tests replaced by arbitrary verdicts",
      note=TRUST + "Unit counts bounded to three, unit lengths to eight letters."),
 dict(id="P29", title="A rafsi is looked up to the word that owns it",
      statement="search_selrafsi_from_rafsi returns a word of the dictionary whose rafsi list contains the given rafsi, or, for a four-letter string that is no listed rafsi, a five-letter word beginning with it; it returns nothing only when there is no such word.",
      quant="all strings, for a dictionary with words of every kind (several rafsi, none, listed four-letter rafsi, non-gismu)",
      why="An off-by-one in the stem rule or a wrong list misnames only some rafsi.",
      files=[PY + "katna.py"], mech=[("search_selrafsi_from_rafsi", PY + "katna.py search_selrafsi_from_rafsi")],
      technique="abstract interpretation over all strings with a representative dictionary standing in for RAFSI_LIST",
      note=TRUST + "The dictionary itself is P07's; that the same loop treats every entry alike is read off the code by the interpretation."),
 dict(id="P30", title="Each tanru component offers exactly its permitted rafsi",
      statement="A plain component offers its dictionary rafsi (experimental ones only with the option), its stem if it is a gismu, and itself if it is a gismu or zi'evla; 'xxx-' offers just that stem, if it is the stem of a gismu or zi'evla that does not itself decompose; '-xxx-' offers just that rafsi: a CLL-shaped one with permitted pairs, a zi'evla, or, with the option, an experimental shape. Anything else is refused with a documented error, as are foreign letters and a component ending in an apostrophe. There is one list per component, in order, and first/last place and the options reach the construction of forms.",
      quant="all components of every form, at every place of tanru of one to three components, all options",
      why="Component syntax times word class times place; the tests use a few of each.",
      files=[PY + "jvozba.py"], mech=[("get_rafsi_list_list", PY + "jvozba.py get_rafsi_list_list")],
      technique="abstract interpretation against an independent statement, word tests replaced by arbitrary verdicts and a representative dictionary",
      note=TRUST + "Words of unbounded length; the forms themselves are P21's."),
 dict(id="P31", title="A built two-rafsi lujvo is a lujvo made of those very rafsi",
      statement="Whenever a lujvo is built from two given CLL rafsi, the result ends as asked (vowel for a lujvo, consonant for a cmevla), the index pairs span the two rafsi in it, analyse_brivla classes it as a lujvo (cmevla when asked for one) under the same options with pieces that join to the word and with the same two rafsi, score_lujvo gives it the score reported, and is_brivla accepts it exactly when it is not a cmevla.",
      quant="all pairs of CLL rafsi shapes, all letters in them, all y, consonant, glide and mz options",
      why="Builder and analyser share no code for hyphens, tosmabru and slinku'i: they disagree only on particular letter combinations.",
      files=[PY + "jvozba.py", PY + "katna.py", PY + "tools.py"], mech=[("get_lujvo_with_analytics", PY + "jvozba.py"), ("analyse_brivla", PY + "tools.py"), ("score_lujvo", PY + "katna.py score_lujvo")],
      technique="abstract interpretation of construction, classification and scoring together (no stand-ins except the dictionary search), letters symbolic",
      note=TRUST + "Two rafsi, given as such; longer lujvo are covered by the per-step properties P11-P13."),
]

NOT_APPLICABLE = [
 dict(id="P90", title="The lujvo returned has the lowest score of all valid lujvo for the tanru",
      statement="For every tanru and option set, no valid lujvo for that tanru scores lower than the one returned.",
      quant="all tanru and all candidate words", why="The candidate space is exponential in the tanru length.",
      files=[PY + "jvozba.py"], mech=[("search", PY + "jvozba.py get_lujvo_from_list")],
      reason="Global optimality compares the search result with words the program never builds; deciding it needs an optimality proof of the pruning over runtime scores, beyond any sound static argument in reach. The local steps (score of each step, keep-the-minimum update, eligibility of the final pick) are claimed instead."),
 dict(id="P91", title="Decomposing a constructed lujvo gives back its tanru",
      statement="For every tanru the constructed lujvo decomposes to components naming the same words under the same options.",
      quant="all tanru, all options", why="Needs all words and rafsi.", files=[PY + "jvozba.py", PY + "katna.py"], mech=[("round trip", PY + "katna.py get_veljvo")],
      reason="Relates two unbounded computations through the whole dictionary, for tanru of any length; also false for some non-default options on the current tree (by design differences). The bounded form (two given rafsi, all letters and options) is claimed as P31; rafsi lookup and component naming as P29 and P25."),
 dict(id="P92", title="Word verdicts agree with camxes and the JVS dictionary",
      statement="A string is accepted as a brivla exactly when the reference grammar accepts it, apart from the documented differences.",
      quant="all strings", why="External oracle.", files=[PY + "tools.py", "differences.md"], mech=[("analyse_brivla", PY + "tools.py analyse_brivla")],
      reason="The oracle is an external PEG grammar and web service not present here, and language equivalence of procedural code with a PEG is outside static reach."),
 dict(id="P93", title="Python, TypeScript and Rust give the same result for every input",
      statement="For every input and option set the three ports return the same value or the same kind of error.",
      quant="all inputs, all options, three programs", why="Three languages.", files=[PY + "*.py", "js/src/*.ts", "rs/src/*.rs"], mech=[("ports", "py, js, rs")],
      reason="Semantic equivalence of programs in three languages is out of reach statically (known small differences exist: score of r/n hyphens in score functions). Only the shared tables are compared (P05)."),
 dict(id="P94", title="Every word search terminates",
      statement="Every public call returns or raises after finitely many steps.",
      quant="all inputs", why="Unbounded inputs.", files=[PY + "tools.py", PY + "katna.py"], mech=[("mutual recursion", PY + "tools.py analyse_brivla, is_slinkuhi; " + PY + "katna.py jvokaha")],
      reason="The mutual recursion (classifier, slinku'i test, constructor, decomposer) has no syntactic decreasing measure: arguments grow at some calls ('to' is prepended, 'a' appended); a ranking argument depends on runtime values."),
]
