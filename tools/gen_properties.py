#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

V="lindera-core/src/viterbi.rs"; T="lindera-tokenizer/src/tokenizer.rs"; TK="lindera-tokenizer/src/token.rs"
PD="lindera-core/src/prefix_dict.rs"; CD="lindera-core/src/character_definition.rs"; UNK="lindera-core/src/unknown_dictionary.rs"
CN="lindera-core/src/connection.rs"; MODE="lindera-core/src/mode.rs"; DIC="lindera-core/src/dictionary.rs"; WE="lindera-core/src/word_entry.rs"
BD="lindera-dictionary-builder/src/"; LD="lindera-dictionary/src/lib.rs"; F="lindera-filter/src/"; AN="lindera-analyzer/src/analyzer.rs"; CLI="lindera-cli/src/main.rs"
BUILDERS=["lindera-ipadic-builder/src/ipadic_builder.rs","lindera-ipadic-neologd-builder/src/ipadic_neologd_builder.rs","lindera-unidic-builder/src/unidic_builder.rs","lindera-ko-dic-builder/src/ko_dic_builder.rs","lindera-cc-cedict-builder/src/cc_cedict_builder.rs"]

prop("C01","Tokens tile the input text exactly",
 "For every text, every well-formed dictionary (one with at least one unknown-word entry per character category) and every mode, tokenization succeeds and the returned tokens are non-empty, contiguous and in order, start at byte 0 and end at the text's last byte, and each token's text is exactly the input bytes of its reported range. Positions are 0,1,2,... and every position length is 1; the empty text gives no tokens.",
 ["inputs","configurations"],"all texts over an alphabet with 1-, 2-, 3- and 4-byte characters and all sentence delimiters, up to a length bound, plus length sweeps past 64 KiB; for every dictionary of a family, with and without user dictionary, in both modes",
 "The tests tokenize a handful of ordinary sentences with a one-word dummy dictionary; losing or misplacing bytes needs particular mixes of character widths, unknown words, delimiters and lengths.",
 [T,V,TK],[("sentence loop accumulates byte positions", T),("lattice connectivity and back pointers", V)],["Tokenizer::tokenize: Token.text/byte_start/byte_end/position/position_length"])
prop("C02","Normal mode returns a minimum-cost segmentation",
 "In normal mode the tokens of each sentence form a path through the candidate words (system words, user words and unknown words that start there) whose total of word costs and connection costs, including those from the sentence start and to the sentence end, is the smallest of all paths. Every token is one of those candidates.",
 ["inputs","configurations"],"every text up to a length bound for every dictionary in an enumerated family (overlapping words, homographs, negative and extreme costs, rectangular and asymmetric connection tables)",
 "A wrong minimum shows only for particular cost and overlap constellations; tests run one-word dictionaries where almost every segmentation is trivially optimal.",
 [V,CN,PD,T],[("Viterbi path cost and left-edge choice",V),("connection cost lookup",CN),("common prefix search",PD)],["Tokenizer::tokenize tokens and their details"])
prop("C03","Decompose mode minimises cost plus length penalties",
 "In decompose mode the chosen path minimises the same total plus, for each chosen word, the configured penalty: kanji-only words longer than the kanji threshold pay the kanji penalty per excess unit, other words longer than the other threshold pay the other penalty per excess unit (unit: three bytes of UTF-8, one kana or kanji). The defaults are thresholds 2 and 7 and penalties 3000 and 1700.",
 ["inputs","configurations"],"every text up to a length bound over kanji/kana/latin alphabets, every dictionary of a family and every penalty setting of a grid around the thresholds",
 "Needs words exactly at, below and above two thresholds in competition with their decompositions; tests never use decompose mode with a dictionary that has compounds.",
 [MODE,V],[("penalty function",MODE),("penalty added to path cost",V)],["Tokenizer::tokenize in Mode::Decompose"])
prop("C04","Unknown words are formed as the character categories prescribe",
 "At a position that is processed for unknown words, each category of the first character yields candidates (one per unknown-word entry of the category) exactly when the category is marked always-invoke or no system or user word starts there; a candidate spans one character, or with grouping the maximal run of characters that have the same category at the same rank. Normal mode does not start unknown words inside the unknown word most recently formed, decompose mode does; tokens from unknown words have the details UNK.",
 ["inputs","configurations"],"all texts up to a length bound over characters of several, shared and default categories, for all combinations of invoke/group flags and category-rank assignments",
 "Grouping, invoke and rank interact with word presence; the dummy dictionaries of the tests have one or two categories and never exercise the combinations.",
 [V,CD,UNK,TK],[("unknown word generation",V),("category lookup",CD),("category to entry table",UNK)],["Tokenizer::tokenize"])
prop("C05","A built dictionary answers exactly what its source says",
 "For each of the five dictionary formats, building a dictionary from source CSV files and loading it from disk makes every source surface findable with exactly its rows: same word cost, same left and right context ids, same detail fields in the same order (after the normalisation the format prescribes), and no other surface is found. Rows may be spread over files, in any order, with up to 31 rows per surface.",
 ["inputs","configurations"],"all small row sets over a surface/cost/id/detail grid for all five formats, all file splits, plus sweeps over number of rows, homographs (1..31), ids and costs across their whole numeric ranges and field lengths",
 "The tests build no dictionary with more than the one dummy row; index packing, sorting, offsets and numeric casts break only for particular counts and values.",
 [BD+"dict.rs",PD,WE,DIC,LD]+BUILDERS,[("row sort, offset/count packing, detail index",BD+"dict.rs"),("lookup",PD),("detail decoding",DIC)],["DictionaryBuilder::build_dictionary then DictionaryLoader::load_dictionary; PrefixDict::find_surface/prefix; Dictionary::word_details; Token::get_details"])
prop("C06","User dictionary words carry the documented cost, ids and details",
 "A user dictionary read from CSV makes each of its surfaces a candidate word: a simple row (three fields) has word cost -10000, context ids 0 and the format's simple detail layout with its part of speech and reading; a detailed row has the costs, ids and details it states. Details of tokens that come from the user dictionary are those of the row, never those of a system word.",
 ["inputs","configurations"],"all small row sets mixing simple and detailed rows, in every order, for all five formats, and count sweeps; crossed with texts where the words compete with system words",
 "The shipped tests use one or two fixed CSV files; row order, mixing, homographs and competition with system words are not varied.",
 [BD+"user_dict.rs",DIC,TK,V]+BUILDERS,[("user dictionary builder",BD+"user_dict.rs"),("system/user flag of word ids",WE),("simple layouts",BUILDERS[0])],["DictionaryLoader::load_user_dictionary_from_csv, UserDictionary::word_details, Token::get_details"])
prop("C07","Compiled user dictionaries equal their CSV, and torn files are refused",
 "Loading a compiled user dictionary gives the same words, costs, ids and details, hence the same tokens, as loading the CSV it was compiled from. A compiled user dictionary, character-definition file or unknown-word file cut short at any byte is refused with an error, never accepted and never a crash.",
 ["crash_points","inputs","fault_sequences"],"every truncation point of each compiled file of an enumerated family of dictionaries; all enumerated CSVs for the equivalence",
 "Tests load complete files only; a torn write can stop at any byte.",
 [BD+"user_dict.rs",DIC,CD,UNK,LD],[("bincode (de)serialisation",DIC)],["DictionaryLoader::load_user_dictionary_from_bin/_from_config, load_dictionary"])
prop("C08","Results do not depend on history, clones, instances or threads",
 "The result of a tokenize or analyze call is a function of the configuration and the text alone: it is the same whatever calls were made before on the same object, on a clone, or concurrently by other threads sharing the object, and asking a token for its details repeatedly or in any order gives the same answer.",
 ["histories","schedules"],"all call histories up to a depth over a set of texts, operations and objects (original, clone, fresh instance), and all interleavings of threads at the steps of the analysis pipeline",
 "Tests make one call per object on one thread; leakage needs a specific earlier or concurrent call.",
 [T,V,TK,AN],[("per-call lattice, reused across sentences",T),("lattice clear and capacity",V),("details cache in token",TK),("clone",AN)],["Tokenizer::tokenize, Token::get_details, Analyzer::analyze, Clone"])
prop("C09","Sentences are analysed independently",
 "Splitting a text after each ideographic full stop, ideographic comma, line feed or tab and tokenizing the pieces separately gives the same tokens, apart from shifted offsets and positions, as tokenizing the whole text; no token crosses such a delimiter.",
 ["inputs","histories"],"all texts up to a length bound over an alphabet with every delimiter, in all dictionaries of the family and both modes; sentence sequences of increasing and decreasing lengths",
 "Needs state left over from a longer or shorter earlier sentence, and words that contain or adjoin delimiters.",
 [T,V],[("sentence split",T),("lattice reuse",V)],["Tokenizer::tokenize"])
prop("C10","Every character gets exactly its defined categories",
 "For every Unicode character, the categories of a loaded character definition are those of all range lines of the source that contain it, in line order without repetition, or the default category if none does, with the invoke and group flags that the source states for the category's name. The order of lines in the source does not matter for flags and names.",
 ["inputs","configurations"],"all 1,112,064 scalar values for every character definition of an enumerated family (overlapping, nested, adjacent, single-character and extreme ranges; all orders of definition lines)",
 "The single unit test checks a lookup table with one boundary; off-by-one at range ends or misassigned names need specific ranges and orders.",
 [CD,BD+"chardef.rs"],[("range parsing and boundary table",CD),("binary search lookup",CD)],["DictionaryBuilder::build_chardef, load_dictionary: lookup_categories/lookup_definition/category_name"])
prop("C11","Connection costs and unknown-word entries equal the source tables",
 "For every pair of context ids within the declared sizes, the loaded connection cost from the right id of the earlier word to the left id of the later word is the value the source table states (the maximum 16-bit cost if it states none), for square and rectangular tables and the full 16-bit cost range. Unknown-word entries keep the costs and ids of their source lines, attached to the category they name.",
 ["inputs","configurations"],"all table shapes up to a bound with all cells distinct, every cell value class, missing cells, any line order; all small unknown-word files",
 "Tests use one dummy matrix; transposition or index errors are invisible in square symmetric or one-cell tables.",
 [CN,BD+"cost_matrix.rs",UNK,BD+"unk.rs"],[("row-major packing",BD+"cost_matrix.rs"),("index arithmetic",CN)],["DictionaryLoader::load_dictionary: ConnectionCostMatrix::cost; tokenization costs"])
prop("C12","Mapping filters rewrite by leftmost-longest match",
 "The mapping character filter and the mapping token filter rewrite a text by scanning left to right, at each point replacing the longest key that matches there by its value and copying the character otherwise, never rescanning replaced text. An empty replacement deletes the match.",
 ["inputs","configurations"],"all texts up to a length bound for all mappings of up to three keys over a small alphabet including multi-byte characters, nested and overlapping keys, empty and longer replacements",
 "Tests try a few fixed mappings; key overlap, prefixes and adjacency are combinatorial.",
 [F+"character_filter/mapping.rs",F+"token_filter/mapping.rs"],[("trie longest prefix loop",F+"character_filter/mapping.rs")],["CharacterFilter::apply, TokenFilter::apply via the loaders"])
prop("C13","The regex character filter replaces every match",
 "The regex character filter returns the text in which every leftmost non-overlapping match of the pattern is replaced by the replacement, with capture references expanded, and leaves the rest unchanged; an invalid pattern is refused at load.",
 ["inputs","configurations"],"all texts up to a length bound for every pattern of an enumerated grammar (literals, classes, alternation, repetition, anchors, groups) and every replacement template of a set",
 "Tests use two patterns; empty matches, adjacent matches and templates are not reached.",
 [F+"character_filter/regex.rs"],[("replacement loop",F+"character_filter/regex.rs")],["CharacterFilter::apply"])
prop("C14","Unicode normalisation filter returns the normal form of the text",
 "For each of the four Unicode normalisation forms, the filter returns exactly that normal form of the whole text, and applying it twice changes nothing more.",
 ["inputs","configurations"],"every Unicode scalar value alone and, up to a length bound, all sequences over an alphabet of composing, decomposing, reordering and compatibility characters (marks, Hangul jamo, half-width kana, ligatures)",
 "Tests use a few Japanese strings; composition across character boundaries is combinatorial.",
 [F+"character_filter/unicode_normalize.rs"],[("segment-wise normalisation",F+"character_filter/unicode_normalize.rs")],["CharacterFilter::apply"])
prop("C15","Iteration marks expand to the characters they repeat",
 "With the kanji (or kana) option on, each maximal run of n iteration marks is replaced by the n characters before it in order, kana marks removing and voiced kana marks adding the voicing of the repeated kana; marks with nothing to repeat, and marks whose option is off, stay as they are. All other characters are unchanged.",
 ["inputs","configurations"],"all texts up to a length bound over every mark, kanji, voiced/unvoiced/unvoiceable kana of both scripts, latin and 4-byte characters, for all four option settings; every kana with every mark",
 "Tests use a dozen strings; runs longer than their left context, mixed marks and text boundaries are combinatorial.",
 [F+"character_filter/japanese_iteration_mark.rs"],[("run detection and replacement",F+"character_filter/japanese_iteration_mark.rs")],["CharacterFilter::apply"])
prop("C16","Analyzer offsets point at the original text a token came from",
 "Whatever character filters run before tokenization, each token's byte range lies in the original text on character boundaries, start not after end, ranges in text order; a token boundary that falls between rewritten pieces is mapped to the corresponding boundary of the original text (where text was deleted, to the end of the deleted text). With no rewriting the range selects exactly the token's text.",
 ["inputs","configurations"],"all texts up to a length bound for chains of one, two and three character filters of every kind (shrinking, growing, deleting, inserting, length-preserving), tokenized so that every boundary of the filtered text is a token boundary",
 "Offset drift depends on the order and sizes of earlier edits; tests check a few texts with one or two filters.",
 [F+"character_filter.rs",F+"character_filter/mapping.rs",F+"character_filter/regex.rs",F+"character_filter/unicode_normalize.rs",F+"character_filter/japanese_iteration_mark.rs",AN],[("offset/diff tables",F+"character_filter.rs"),("reverse application per filter",AN)],["Analyzer::analyze: byte_start/byte_end"])
prop("C17","Keep and stop filters retain exactly the tokens they describe",
 "The keep/stop filters by word, by Japanese or Korean tag and by length keep a token if and only if it satisfies the stated condition (tags match on all four levels with missing levels as '*'; length counts characters, bounds inclusive), in the original order, and alter no field of a kept token.",
 ["inputs","configurations"],"all token lists up to a length bound over token classes, for all filter configurations of a grid",
 "Tests use single sentences with one configuration; off-by-one bounds, order and partial tags are combinatorial.",
 [F+"token_filter/"+x for x in ["japanese_keep_tags.rs","japanese_stop_tags.rs","korean_keep_tags.rs","korean_stop_tags.rs","keep_words.rs","stop_words.rs","length.rs"]],[("retain predicates",F+"token_filter/length.rs")],["TokenFilter::apply"])
prop("C18","Text-rewriting token filters change the text as specified and nothing else",
 "Lowercase, uppercase, kana conversion, katakana stemming, reading form (Japanese, Korean) and base form replace each token's text by the specified function of its text or details, leave unknown words alone where the filter says so, and never change the number, order, offsets, positions, ids or details of tokens.",
 ["inputs","configurations"],"every Unicode scalar value and all short strings over a script-mixing alphabet, all filter configurations and dictionary formats, all details lengths",
 "Tests use a few words; code point ranges and the minimum length have many edges.",
 [F+"token_filter/"+x for x in ["lowercase.rs","uppercase.rs","japanese_kana.rs","japanese_katakana_stem.rs","japanese_reading_form.rs","japanese_base_form.rs","korean_reading_form.rs"]],[("per-token rewriting",F+"token_filter/japanese_kana.rs")],["TokenFilter::apply"])
prop("C19","Japanese numerals convert to the number they denote",
 "For every well-formed Japanese numeral (kanji positional, kanji with units up to gai, formal kanji, full-width or ASCII digits) the number filter rewrites the token to the decimal digits of the number denoted, and it terminates without failure on every text, keeping the characters that are not part of a numeral. Tokens whose tag is not selected are untouched.",
 ["inputs","configurations"],"all numerals generated from the numeral grammar up to a bound (all four-digit groups, all combinations of group presence), and all strings up to a length bound over numeral and other characters",
 "Tests list a few dozen numerals; the digit/unit grammar has thousands of distinct shapes.",
 [F+"token_filter/japanese_number.rs"],[("right-to-left digit accumulation",F+"token_filter/japanese_number.rs")],["TokenFilter::apply"])
prop("C20","Compound filter merges exactly the maximal runs of selected tags",
 "The compound-word filter replaces each maximal run of two or more adjacent tokens with selected tags by one token whose text is their concatenation, whose range runs from the first start to the last end, whose position is the first one, whose position length is the sum, and whose details are the compound tag (or the configured one) padded with '*'; every other token is unchanged.",
 ["inputs","configurations"],"all token lists up to a length bound over selected and unselected tags, for all tag sets, formats and new-tag settings of a grid",
 "Tests cover a few sentences; run position (start, middle, end), adjacency of runs and length are combinatorial.",
 [F+"token_filter/japanese_compound_word.rs"],[("run accumulation",F+"token_filter/japanese_compound_word.rs")],["TokenFilter::apply"])
prop("C21","The analyzer is the composition of its configured stages",
 "Analyzing a text equals applying the configured character filters in order, tokenizing, then applying the configured token filters in order, whether the analyzer was built from a JSON configuration, from parts, from command-line flags or by cloning. An unknown filter kind or an invalid setting is refused when the analyzer is built, never silently ignored.",
 ["configurations","inputs"],"all ordered chains of up to two character filters and up to two or three token filters from instances of every kind, on a text set; every filter kind with every documented and invalid setting",
 "Tests use two fixed configurations; order and presence of stages are combinatorial.",
 [AN,F+"character_filter.rs",F+"token_filter.rs",F+"lib.rs"],[("pipeline",AN),("loaders",F+"token_filter.rs")],["Analyzer::from_config/new/clone/analyze; loaders"])
prop("C22","Malformed sources and settings give errors, not crashes or silent damage",
 "Building a system or user dictionary from a malformed source (missing file, wrong number of fields, non-numeric or out-of-range numbers, bad ranges, connection entries outside the declared table) returns an error or, where the format says so, skips exactly the malformed row; it never panics and never alters the entries of well-formed rows. Malformed filter and analyzer settings are refused with an error.",
 ["inputs","fault_sequences","configurations"],"every single-site damage (field dropped, duplicated, emptied, replaced by each of a set of bad values; line dropped, truncated at every byte; file missing) of well-formed sources of all five formats; every single-site damage of filter settings",
 "Tests feed well-formed data only.",
 [BD+"dict.rs",BD+"user_dict.rs",BD+"cost_matrix.rs",BD+"unk.rs",CD,UNK]+BUILDERS,[("field parsing",BD+"dict.rs")],["DictionaryBuilder::*, DictionaryLoader::*, loaders"])
prop("C23","Compression is lossless and transparent",
 "Decompressing compressed data gives back the original bytes for every algorithm and every content, and dictionary files built with compression decompress to exactly the bytes built without it, so compressed embedded dictionaries behave as uncompressed ones.",
 ["inputs","configurations"],"all byte strings up to a length bound over a byte alphabet, run-length and size sweeps across block boundaries, all algorithms; all five formats built with and without compression",
 "There is one test with one text per algorithm.",
 ["lindera-compress/src/lib.rs","lindera-decompress/src/lib.rs",BD+"utils.rs"],[("algorithm dispatch","lindera-compress/src/lib.rs")],["compress, decompress, builder output with the compress feature"])
prop("C24","The command line prints what the library computes",
 "For every input line, the command line tool prints in wakati, mecab and json format the tokens (text, details, offsets) the library computes for that trimmed line with the same dictionary, mode, user dictionary and filters, line by line and in order, whether read from a file or from standard input; its build command writes the same dictionary files as the library.",
 ["inputs","configurations"],"all lines up to a length bound over an alphabet, all option combinations of a grid, files with and without final newline",
 "There are no tests of the command line tool.",
 [CLI],[("option handling and formatting",CLI)],["stdout of the lindera binary"])
prop("C25","Dictionary kinds and configurations select the dictionary they name",
 "Each dictionary kind name maps to its own builder, embedded dictionary and back to the same name, in configuration files and on the command line; where both a kind and a path are configured the kind is used. A configuration that names neither kind nor path, an unknown kind or mode, a user dictionary file that is neither .csv nor .bin, or a .csv user dictionary without a kind is refused. A configuration written out and read back is the same configuration.",
 ["configurations"],"all kinds, modes and combinations of dictionary and user-dictionary settings, including missing, unknown and duplicated ones",
 "Tests select the compiled-in kinds through cfg branches and never compare kinds with each other or exercise refusals.",
 [LD,T,MODE,"lindera-ipadic/src/lib.rs","lindera-ipadic-neologd/src/lib.rs","lindera-unidic/src/lib.rs","lindera-ko-dic/src/lib.rs","lindera-cc-cedict/src/lib.rs"],[("kind dispatch",LD),("config (de)serialisation",T)],["TokenizerConfig, DictionaryLoader, DictionaryBuilderResolver"])
prop("C26","Failed reads and writes are reported, and builds are reproducible",
 "When a read, write, or listing of a directory fails while a dictionary is built, loaded or used for tokenising a file, the operation reports an error instead of success with missing, truncated or different results, and a transfer of fewer bytes than asked for changes nothing; the command line never ends with exit code 0 in such a case and never crashes over a dictionary or input file. Building a system or user dictionary from the same source writes the same files byte for byte every time, whatever the directories are called, in whatever order the source files were created, and whatever the output directory held before, including what a failed or killed build left there, and it only reads the source.",
 ["fault_sequences","crash_points","histories","configurations"],"every file operation of a run x every way it can fail (error once, error from there on, interruption, short and partial transfers, end of the process before it or in the middle of a write); every creation order, every subset of old output files, all histories of builds up to a length, enumerated names and spellings of directories, enumerated hash seeds",
 "Tests never make an operation fail, never build twice into one directory, and never look at the bytes that are written.",
 [BD+"dict.rs",BD+"user_dict.rs",BD+"cost_matrix.rs",BD+"unk.rs",BD+"chardef.rs",BD+"utils.rs","lindera-core/src/file_util.rs",LD,CLI]+BUILDERS,[("buffered writers of the compiled files",BD+"dict.rs"),("reading files","lindera-core/src/file_util.rs")],["exit code, standard output and files of the lindera binary; DictionaryBuilder::build_dictionary, build_user_dictionary"])
with open(OUT,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
