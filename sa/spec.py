"""The properties: one source for properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

AI = "abstract interpretation of MIR (interprocedural, zone + string-shape domain)"
NOTE_T = (
    "Every panicking construct reachable from the listed public functions is shown unreachable on all abstract paths, inputs and private fields unconstrained. "
    "Trusts the MIR extraction, the engine's abstract semantics and its models of the standard library; allocation failure and lengths beyond 2^47 excluded. "
    "A path through a call without a model is reported undecided (listed in the evidence), not as a violation."
)
WHY_T = "Existing tests run a few hundred chosen names; a panic needs one unusual input (a multi-byte letter, a combining mark, a very short word, an odd maximum length) among all strings, which no sample covers."


def T(id, title, statement, files, mech, qtext="every Unicode string and every configuration the constructors accept", why=WHY_T, over=("inputs", "configurations")):
    return dict(
        id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=AI, level="proof", level_note=NOTE_T,
    )


PROPS = [
    T("C01", "Soundex and Refined Soundex never panic",
      "Encoding any string with Soundex or Refined Soundex, under any mapping either can be built with, returns normally, and so do building one from any text, comparing two strings and scoring their difference. No input causes a panic, an out-of-range index or an arithmetic overflow.",
      ["src/soundex.rs", "src/refined_soundex.rs", "src/lib.rs"], [("cleaning keeps only letters the mapping has an entry for", "src/lib.rs SoundexUtils::soundex_clean"), ("mapping lookup", "src/soundex.rs get_mapping_code")]),
    T("C02", "NYSIIS never panics",
      "Encoding or comparing any strings with NYSIIS, strict or not, returns normally. No input causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow.",
      ["src/nysiis.rs", "src/lib.rs"], [("transcoding window over characters", "src/nysiis.rs transcode"), ("strict truncation by characters", "src/nysiis.rs encode")]),
    T("C03", "Phonex never panics",
      "Encoding or comparing any strings with Phonex, for any maximum code length below 2^32, returns normally. No input causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow.",
      ["src/phonex.rs", "src/helper.rs", "src/lib.rs"], [("preprocessing of prefixes and suffixes", "src/phonex.rs preprocess"), ("transcoding", "src/phonex.rs transcode")]),
    T("C04", "Metaphone never panics",
      "Encoding or comparing any strings with Metaphone, for any maximum code length, returns normally. No input causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow.",
      ["src/metaphone.rs"], [("lookahead and lookbehind by character position", "src/metaphone.rs region_match, is_next_char, is_previous_char")]),
    T("C05", "Double Metaphone never panics",
      "Computing the primary and alternate codes of any string with Double Metaphone, for any maximum code length below 2^32, returns normally, and so does comparing any two strings on either code. No input causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow.",
      ["src/double_metaphone.rs"], [("context lookups tolerate positions outside the word", "src/double_metaphone.rs contains, char_at"), ("appending respects the remaining length", "src/double_metaphone.rs append_str_primary")]),
    T("C06", "Match Rating Approach never panics",
      "Encoding any string and comparing any two strings with the Match Rating Approach returns normally, including empty strings, blank strings and strings without any letter. No input causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow.",
      ["src/match_rating_approach.rs"], [("first and last three characters", "src/match_rating_approach.rs get_first3_last3"), ("rating of the leftovers", "src/match_rating_approach.rs left_to_right_then_right_to_left_processing")]),
    T("C07", "Caverphone and Cologne phonetic never panic",
      "Encoding or comparing any strings with Caverphone 1, Caverphone 2 or the Cologne phonetic returns normally. No input causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow.",
      ["src/caverphone.rs", "src/cologne.rs", "src/helper.rs"], [("final fixed-length cut", "src/caverphone.rs encode"), ("character transformation", "src/cologne.rs encode")], qtext="every Unicode string"),
    T("C08", "Daitch-Mokotoff encoding never panics",
      "With any encoder built from rules that were accepted, encoding any string to one code, to the joined list of codes or to the list of codes, with or without branching, returns normally, and so does comparing two strings. No input causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow.",
      ["src/daitch_mokotoff.rs"], [("advance past the matched pattern", "src/daitch_mokotoff.rs inner_soundex"), ("cut of a branch to six characters", "src/daitch_mokotoff.rs process_next_replacement")], qtext="every Unicode string and every accepted rule file"),
]

NOTE_S = (
    "Length bounds, alphabet and first character are read off every abstract return state of the public function. "
    "Trusts the MIR extraction, the engine's abstract semantics and its models of the standard library. "
    "Paths through an unmodelled call are reported undecided in the evidence, not as violations."
)
WHY_S = "Tests compare the codes of chosen words; a code of the wrong length or with a stray character appears only for particular words or limits, among all strings, which no sample covers."


def S(id, title, statement, files, mech, qtext="every Unicode string", over=("inputs", "configurations")):
    p = T(id, title, statement, files, mech, qtext, WHY_S, over)
    p["level_note"] = NOTE_S
    return p


PROPS += [
    S("C12", "A Soundex code is empty or one letter and three digits",
      "With any of the provided mappings, with or without the special handling of H and W, the Soundex code of any string is either empty or exactly four characters: an upper-case ASCII letter followed by three digits from 0 to 6.",
      ["src/soundex.rs", "src/lib.rs"], [("code built in a fixed four-character frame", "src/soundex.rs encode")], "every Unicode string, each provided mapping and both H/W settings"),
    S("C13", "A Refined Soundex code is empty or one letter and digits",
      "With the default mapping, the Refined Soundex code of any string is either empty or at least two characters: an upper-case ASCII letter followed only by decimal digits.",
      ["src/refined_soundex.rs", "src/lib.rs"], [("first letter kept, every letter mapped", "src/refined_soundex.rs encode")]),
    S("C14", "Caverphone codes have exactly 6 or 10 characters of a fixed alphabet",
      "The Caverphone 1 code of any string has exactly 6 characters and the Caverphone 2 code exactly 10, and every character is one of 1, A, F, K, L, M, N, P, R, S, T, W and Y.",
      ["src/caverphone.rs", "src/helper.rs"], [("padding with ones and final cut", "src/caverphone.rs encode")]),
    S("C15", "A Cologne phonetic code contains only the digits 0 to 8",
      "The Cologne phonetic code of any string consists only of digits from 0 to 8.",
      ["src/cologne.rs"], [("only digits are put in the output, ignored characters are dropped", "src/cologne.rs CologneOutputBuffer::put")]),
    S("C16", "A strict NYSIIS code has at most 6 characters, upper-case letters if ASCII",
      "The strict NYSIIS code of any string, which is also the default, has at most 6 characters. Every ASCII character in a NYSIIS code, strict or not, is an upper-case letter, and no character is whitespace.",
      ["src/nysiis.rs", "src/lib.rs"], [("truncation in strict mode", "src/nysiis.rs encode"), ("input cleaning", "src/lib.rs SoundexUtils::clean")], "every Unicode string, strict or not"),
    S("C17", "Metaphone and Double Metaphone codes respect limit and alphabet",
      "For any maximum length the configuration accepts (at least 1 for Metaphone), a Metaphone code and both Double Metaphone codes are never longer than it; the default limit is 4. For words of two or more bytes Metaphone codes use only 0ABEFHIJKLMNOPRSTUWXY, and Double Metaphone codes use only 0AFHJKLMNPRSTX, plus a space in the alternate code.",
      ["src/metaphone.rs", "src/double_metaphone.rs"], [("loop stops at the maximum length", "src/metaphone.rs encode"), ("append cut to the remaining length", "src/double_metaphone.rs append_str_primary, append_str_alternate")], "every Unicode string and every maximum length from 1 (Metaphone) or 0 (Double Metaphone) to 2^32-1, or none"),
    S("C18", "A Phonex code has exactly the configured number of characters",
      "For any configured length of at least 1, the Phonex code of any string, even an empty one, has exactly that many characters; the default is 4.",
      ["src/phonex.rs"], [("padding and cut to the configured length", "src/phonex.rs encode")], "every Unicode string and every configured length from 1 to 2^32-1"),
    S("C19", "A Match Rating code has at most 6 characters, upper case, cleaned",
      "The Match Rating Approach code of any string has at most 6 characters and contains no lower-case ASCII letter, no whitespace and none of the characters & ' , - and full stop.",
      ["src/match_rating_approach.rs"], [("first and last three characters", "src/match_rating_approach.rs get_first3_last3"), ("cleaning", "src/match_rating_approach.rs clean_name")]),
]

PROPS += [
    S("C11", "Slicing by characters never panics and returns the characters asked for",
      "A character sequence built from any string can be measured and indexed by any range of positions without a panic, even a reversed or out-of-bounds range. The text returned has exactly as many characters as the range has positions inside the text, and is empty when the range starts at or after its end or after the text.",
      ["src/helper.rs"], [("byte offsets found from character positions", "src/helper.rs Index implementations of CharSequence")], "every Unicode string and every range of positions below 2^58"),
    S("C20", "Every Daitch-Mokotoff code has exactly 6 characters",
      "With any accepted rules, the single Daitch-Mokotoff code of any string has exactly 6 characters, and the list of branched codes is never empty and each of its codes has exactly 6 characters.",
      ["src/daitch_mokotoff.rs"], [("branches padded to six characters", "src/daitch_mokotoff.rs Branch::finish")], "every Unicode string and every accepted rule file"),
]

NOTE_M = (
    "As for the other totality properties, but modular: a function shown unable to fail for all arguments is an unknown result at its calls, recursive functions are analysed for arbitrary arguments, "
    "and the rule type's field facts are inferred from every place that builds one. If the inlined retry of an alarm does not finish, the alarm stands. "
    "Excluded: stack exhaustion, allocation failure, lengths beyond 2^47. Trusts the models of the standard library, regex and the nom combinators."
)


def M(*a, **k):
    p = T(*a, **k)
    p["level_note"] = NOTE_M
    p["technique"] = "modular abstract interpretation of MIR with function summaries and inferred type invariants"
    return p


PROPS += [
    M("C09", "Beider-Morse encoding never panics",
      "With any encoder built from a configuration that was loaded, for any name type, rule type, concatenation setting and phoneme limit, encoding any string, with guessed or with given languages, and comparing two strings return normally. No input causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow. Running out of stack or memory is not covered.",
      ["src/beider_morse/engine.rs", "src/beider_morse/mod.rs", "src/beider_morse/rule.rs", "src/beider_morse/lang.rs", "src/beider_morse/languages.rs", "src/helper.rs"],
      [("rules are tried inside the text only, then one character is skipped", "src/beider_morse/engine.rs RulesApplication::invoke"), ("prefix table has an entry for each name type", "src/beider_morse/engine.rs NAME_PREFIXES"), ("missing rules are an empty table", "src/beider_morse/engine.rs encode_with_language_set")],
      "every Unicode string, every set of languages and every loaded configuration"),
    M("C10", "Loading rule files never panics",
      "Loading a Beider-Morse configuration from any directory and building a Daitch-Mokotoff encoder from any rule text returns an encoder or an error, whatever the files contain. No text causes a panic, an out-of-range index, a cut inside a multi-byte character or an arithmetic overflow. Reading a name type from any text, and combining language sets, does not panic either. Running out of stack or memory is not covered.",
      ["src/beider_morse/mod.rs", "src/beider_morse/rule.rs", "src/beider_morse/lang.rs", "src/beider_morse/languages.rs", "src/beider_morse/regex_optim.rs", "src/rules_parser.rs", "src/daitch_mokotoff.rs"],
      [("each construct is recognised by a parser that returns what is left", "src/rules_parser.rs"), ("regular expressions are compiled or simplified", "src/beider_morse/regex_optim.rs"), ("includes", "src/beider_morse/rule.rs parse_include")],
      "every content of every configuration file and rule text", why="Existing tests load the bundled rules and a few wrong ones; a panic needs one unusual line among all texts, which no sample covers."),
]


def D(id, title, statement, files, mech, technique, note, why, qtext, over=("inputs", "histories"), level="proof"):
    return dict(
        id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, level=level, level_note=note,
    )


ALL_SRC = ["src/lib.rs", "src/soundex.rs", "src/refined_soundex.rs", "src/nysiis.rs", "src/phonex.rs", "src/metaphone.rs", "src/double_metaphone.rs", "src/match_rating_approach.rs", "src/caverphone.rs", "src/cologne.rs", "src/daitch_mokotoff.rs", "src/beider_morse/mod.rs", "src/beider_morse/engine.rs"]
PROPS += [
    D("C24", "Encoding depends only on the encoder and the text",
      "What an encoder returns depends only on its own configuration and the text given: no call reads or changes state kept between calls, the clock, the environment, a random source, a stream, another thread or, outside the loading of Beider-Morse configurations and functions given a path, the file system, and the iteration order of a hash table never reaches a result.",
      ALL_SRC, [("encode takes the encoder by shared reference", "src/lib.rs Encoder"), ("ordered sets and maps", "src/beider_morse/engine.rs, src/daitch_mokotoff.rs"), ("constants built once", "src/beider_morse/engine.rs NAME_PREFIXES")],
      "effect analysis over the call graph of the MIR, statics and type contents",
      "Every function reachable from a public one is visited; forbidden functions, mutable or interior-mutable statics, interior mutability in any type of the crate and hash-order flows are reported. Trusts that regex, nom and the allowed part of the standard library keep no observable state.",
      "A test runs one history in one process; hidden state shows only for particular sequences of calls, environments or threads.",
      "every sequence of calls, from any thread, in any environment", over=("histories", "schedules", "inputs")),
    D("C25", "Encoders can be shared between threads",
      "Every public type of the crate is Send and Sync, and the crate's own code contains no unsafe block, no unsafe function and no hand-written unsafe trait implementation.",
      ALL_SRC, [("unsafe code is denied", "src/lib.rs"), ("encoders own plain data", "src/daitch_mokotoff.rs, src/beider_morse/mod.rs")],
      "trait queries to the compiler's solver and a query over the syntax tree",
      "The compiler's trait solver answers for every public type; unsafe blocks are searched in every body. Types with their own type parameters would be reported undecided.",
      "A test that compiles says nothing about auto traits it does not ask for; a lost one shows only in the user's threaded program.",
      "every public type, every schedule of threads", over=("schedules",)),
]

PROPS += [
    D("C21", "Characters an encoder ignores do not change a code",
      "Adding ASCII characters other than letters anywhere in a text that has a letter, or removing them, does not change its code by Soundex, Refined Soundex, NYSIIS, Phonex, Caverphone 1 and Caverphone 2. Adding or removing ASCII white space anywhere in a text does not change its Daitch-Mokotoff codes, with or without branching.",
      ["src/lib.rs", "src/soundex.rs", "src/refined_soundex.rs", "src/nysiis.rs", "src/phonex.rs", "src/caverphone.rs", "src/helper.rs", "src/daitch_mokotoff.rs"],
      [("the text is cleaned before it is looked at", "src/lib.rs SoundexUtils::soundex_clean, src/helper.rs remove_all_non_letter, src/daitch_mokotoff.rs inner_soundex"), ("nothing but the cleaned text reaches the result", "each encode")],
      "dependence (taint) analysis with tags for removable characters over abstract interpretation of MIR",
      "The input is tagged for as long as a character that must not count may be in it: conversions and copies keep the tag, a filter rejecting all of these characters drops it. A tagged text must not be compared, searched, indexed, counted or returned, and a tagged character is only tested by the filter itself. A test of a tagged character in a loop is not followed and reported undecided; a test for an empty text is let through.",
      "Tests insert a few marks in a few names; a use of the text before it is cleaned shows only where the mark parts two letters a rule looks at.",
      "every Unicode string, every position and kind of the added characters", over=("inputs", "configurations")),
    D("C22", "The case of ASCII letters does not change a code",
      "Writing any ASCII letters of a name in the other case does not change its code, for every encoder and configuration: the code of every encoder, the primary and alternate Double Metaphone codes, every branch of Daitch-Mokotoff and the Beider-Morse code for given languages. Whether two names match under the Match Rating Approach is not covered.",
      ALL_SRC + ["src/helper.rs", "src/beider_morse/lang.rs"], [("letters are converted before they are looked at", "src/lib.rs SoundexUtils::soundex_clean and the start of each encode"), ("language detection on lower case", "src/beider_morse/lang.rs guess_languages")],
      "dependence (taint) analysis with case tags over abstract interpretation of MIR",
      "The input is tagged until its case is converted; no branch, comparison, lookup, number or result may depend on tagged letters in a way that differs between the two cases. Trusts that case conversion of a string gives the same text for both cases of its ASCII letters, and the models of the standard library; input given to a library function whose treatment of case is unknown is reported undecided.",
      "Tests compare a few names written one way; a dependence on case shows only for a name that meets the right rule with an unusual capitalisation.",
      "every Unicode string, every recapitalisation of its ASCII letters, every configuration", over=("inputs", "configurations")),
]

VN = "value numbering (Herbrand terms with congruence) over MIR"
NOTE_V = (
    "Every way through the function is evaluated to a term over its inputs, with the named core function uninterpreted; branches leave equalities behind, loops forget what they assign. "
    "Trusts the MIR extraction and the table of standard-library functions that pass a value on unchanged; a term containing an unknown value is reported undecided, and so is one that trims or changes the case of a text handed to a core function."
)


def W(id, title, statement, files, mech, why, qtext, over=("inputs", "configurations")):
    return D(id, title, statement, files, mech, VN, NOTE_V, why, qtext, over)


PROPS += [
    W("C26", "Two texts match exactly when their codes are equal",
      "For every encoder except the Match Rating Approach, is_encoded_equals answers true when encode returns the same code for both texts and false when it does not, whatever the texts: empty, equal, or without any letter.",
      ALL_SRC, [("comparison of the two codes", "src/lib.rs Encoder::is_encoded_equals")],
      "Tests compare chosen pairs; a shortcut that answers without comparing the codes is wrong only for particular pairs among all pairs of strings.", "every pair of Unicode strings and every configuration"),
    W("C27", "The Double Metaphone functions return the codes they name",
      "For every text, encode returns the primary code of double_metaphone, encode_alternate its alternate code, DoubleMetaphoneResult::primary and alternate the code of that name, and is_double_metaphone_equal compares the primary codes of the two texts when its last argument is false and the alternate codes when it is true.",
      ["src/double_metaphone.rs"], [("one result holds both codes", "src/double_metaphone.rs DoubleMetaphoneResult")],
      "Both codes are equal for most names, so a test that mixes them up passes unless it happens on a name where they differ.", "every Unicode string and every maximum length"),
    W("C28", "Daitch-Mokotoff encode and soundex return the codes they name",
      "For every text and every rule set, encode returns the first of the codes inner_soundex finds without branching, or nothing if there is none, and soundex returns all the codes inner_soundex finds with branching, in its order, separated by '|'.",
      ["src/daitch_mokotoff.rs"], [("one search, with or without branching", "src/daitch_mokotoff.rs inner_soundex")],
      "Most names have a single code, for which all three functions agree.", "every Unicode string and every accepted rule set"),
    W("C29", "Beider-Morse encode is the encoding for the guessed languages",
      "For every text and configuration, the Beider-Morse encode is what encode_with_languages computes for the languages guessed from that text, and encode_with_languages hands the text and the languages given to the encoding unchanged, whatever the languages.",
      ["src/beider_morse/mod.rs", "src/beider_morse/engine.rs"], [("delegation to the engine", "src/beider_morse/mod.rs encode, encode_with_languages; src/beider_morse/engine.rs encode")],
      "Tests use names whose guess is what is asked for, and rarely an empty or a single-language set.", "every Unicode string, every set of languages, every configuration"),
    W("C30", "Options reach the encoder unchanged",
      "Soundex, Refined Soundex, Metaphone, Double Metaphone, Phonex and NYSIIS constructors store exactly the mapping, flag or limit given; every setter of the Beider-Morse and Daitch-Mokotoff builders replaces its own option by the value given and no other; and build passes every option on, with the rules and the languages of the chosen name type.",
      ["src/soundex.rs", "src/refined_soundex.rs", "src/metaphone.rs", "src/double_metaphone.rs", "src/phonex.rs", "src/nysiis.rs", "src/beider_morse/mod.rs", "src/daitch_mokotoff.rs"],
      [("builders", "src/beider_morse/mod.rs BeiderMorseBuilder; src/daitch_mokotoff.rs DaitchMokotoffSoundexBuilder")],
      "Tests set few options to few values, and seldom two of them in the two orders; an option lost or adjusted shows only for the value concerned.", "every value of every option, in every order of calls", over=("configurations", "histories")),
    W("C31", "A mapping text builds the encoder it spells",
      "For every text, parsing it and converting it from a borrowed or an owned string build the same Soundex or Refined Soundex: one whose mapping is the characters of the text in their order when there are exactly 26, and an error otherwise. "
      "A Soundex built from a text or an array treats H and W specially exactly when the mapping has no silent mark '-'. The default encoders use the American English mappings.",
      ["src/soundex.rs", "src/refined_soundex.rs"], [("conversions", "src/soundex.rs, src/refined_soundex.rs: FromStr, TryFrom, From, Default")],
      "Tests build a few mappings through one or two of the conversions; the others may differ from them, or for other mappings.", "every text and every array of 26 characters", over=("inputs",)),
    W("C32", "Language sets behave as sets",
      "LanguageSet::restrict_to keeps the languages common to both sets and merge those of either, with Any standing for all languages and NoLanguages for none, for every combination of the three kinds; is_empty, is_singleton and any answer for the languages listed, and a set built from a list of languages holds exactly these.",
      ["src/beider_morse/languages.rs"], [("one arm for each combination of kinds", "src/beider_morse/languages.rs restrict_to, merge")],
      "Tests combine a few lists; which languages are common depends on both sets, among all sets.", "every pair of language sets"),
]

NOTE_L = (
    "A loop is discharged by an iterator of a finite type it cannot be left without, or by a lexicographic ranking of counters and lengths that the abstract interpreter proves for every turn; "
    "a turn that provably leaves the measures unchanged is a violation, a loop without a ranking is undecided. Trusts the MIR extraction, the abstract models of the standard library, and that library code given finite inputs returns."
)
PROPS += [
    D("C39", "Every loop ends",
      "For every text, option and rule file, every loop of the library is left after finitely many turns: each turn consumes some of a finite input, or brings a counter or a length nearer to a bound that does not move away. "
      "A Beider-Morse rule file that includes itself, directly or through other files, is refused instead of being read for ever. Other recursion (the Beider-Morse encoding of names with a prefix or of several words), and code of other crates, are not covered.",
      ALL_SRC, [("the loops of the encoders", "src/double_metaphone.rs, src/phonex.rs, src/nysiis.rs, src/daitch_mokotoff.rs, src/beider_morse/engine.rs"), ("the readers of rule files", "src/daitch_mokotoff.rs build; src/beider_morse/rule.rs, lang.rs, languages.rs"), ("refusal of circular includes", "src/beider_morse/rule.rs parse_include")],
      "termination analysis: finite iterators and ranking functions over the abstract states of MIR loops", NOTE_L,
      "A test that ends says nothing about the inputs for which a turn makes no progress, and one that does not end is not in the suite.", "every Unicode string, every configuration and every rule file", over=("inputs", "configurations")),
]


def N(id, title, statement, files, why, qtext, reason, over=("inputs",)):
    return dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=[])), reason=reason)


NA = [
    N("C35", "A rule is read from one line of a rule file",
      "Every rule, include, language and folding line accepted by the loaders lies on a single line of the file, with an optional comment after it; comments never become rules and no line is skipped without an error.",
      ["src/rules_parser.rs"], "Tests read the bundled files and a few variations.", "every text of a rule file",
      "Which texts a composition of nom combinators accepts is decided by run-time parser values (closures built by other closures) and character-level loops in nom; the domains here bound what a parser consumes, not the language it accepts."),
    N("C36", "Loading errors name the right file and line",
      "The line number in a parse error is the number of line ends before the offending text plus one, and the file name is that of the file that contains it.",
      ["src/beider_morse/rule.rs", "src/beider_morse/lang.rs", "src/beider_morse/languages.rs", "src/daitch_mokotoff.rs", "src/lib.rs"], "Tests contain a few wrong files.", "every text of a rule file",
      "The number of line ends in the consumed prefix is a count over unbounded text that would have to be related to a counter through nom's parsers; no numeric domain in reach tracks occurrences of a character in a suffix."),
    N("C40", "Codes equal those of the reference implementation",
      "Every encoder returns the code Apache Commons Codec (Rust port of its tests) or the published algorithm gives for the same text and options.",
      ALL_SRC, "Tests compare a few thousand names.", "every Unicode string and option",
      "The reference is not in the source: equality with another implementation is an oracle question for differential testing, not decidable from this code alone."),
    N("C41", "A Beider-Morse code has at most the configured number of phonemes",
      "For a single word the number of alternatives in a Beider-Morse code does not exceed max_phonemes.",
      ["src/beider_morse/engine.rs"], "Tests use a few names and limits.", "every string, limit and rule set",
      "The number of elements of a set after merging by text, and of the separators in a joined text, are cardinalities the sequence domain does not relate to the limit; final rules may add phonemes again."),
    N("C42", "Match Rating comparison does not depend on the order of its arguments",
      "MatchRatingApproach::is_encoded_equals gives the same answer with its two arguments exchanged.",
      ["src/match_rating_approach.rs"], "Tests compare chosen pairs one way.", "every pair of strings",
      "A two-run (relational) property of loops that erase characters from both words in place; proving the two runs equal needs an inductive relation over array contents, which no dataflow analysis here provides."),
    N("C43", "Encoding time grows moderately with the length of the text",
      "Encoding a text takes time polynomial in its length.",
      ALL_SRC, "Tests have short texts.", "every Unicode string",
      "Cost bounds need amortised counts of nested data-dependent loops and of library calls; only termination is decided (C39)."),
    N("C44", "The bundled rules and languages load without error",
      "The rule data compiled in with the embedded features is accepted by the loaders, for every name and rule type.",
      ["src/beider_morse/rule.rs", "src/daitch_mokotoff.rs"], "Tests load it once, which settles it.", "the embedded files",
      "One fixed input: running the loader settles it, and a static argument would have to evaluate the parsers on that text, which is execution by another name."),
]
