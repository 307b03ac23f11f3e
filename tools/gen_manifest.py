#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist (keep in step with properties.jsonl)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
T_MODEL = "explicit-state model checking of the candidate lattice (exhaustive enumeration of bounded dictionaries, texts and modes; every model state space is replayed against the real builder, loader and tokenizer)"
T_DICT = "explicit-state exploration of a bounded space of dictionary sources; every state (source) is built and loaded by the real code and compared in full with a reference reading of the source"
T_FILT = "explicit-state exploration of the bounded space of filter settings and texts; every state is executed by the real filter and compared with a separate step-by-step model of the rewriting"
T_TOK = "explicit-state exploration of the bounded space of filter settings and token sequences; every state is executed by the real filter and compared field by field with a separate model"
CHECKS = {
 "C01": ("model_checking", T_MODEL, "all texts up to a length over alphabets of every character width, times enumerated dictionaries and modes; lengths to 600 characters per family"),
 "C02": ("model_checking", T_MODEL, "the reference lattice (states = (end, right id)) is explored exhaustively for every text; the real token path is traced through it"),
 "C03": ("model_checking", T_MODEL, "as C02 with penalties; penalty thresholds enumerated around every word length"),
 "C04": ("model_checking", T_MODEL, "every flag combination of two categories and the default, every text up to a bound; candidate sets observed through cost-isolating dictionaries"),
 "C05": ("model_checking", T_DICT, "every small table over enumerated surfaces, rows, file splits and row orders, for each of the five formats; membership asked for every string over the alphabet up to a bound"),
 "C06": ("model_checking", T_DICT, "every small user table, simple and detailed rows, for every format, against system words at and around the same surfaces"),
 "C07": ("fault_enumeration", "exhaustive fault enumeration: every cut point of every compiled file is loaded by the real code; round trips are enumerated over small tables", "every byte offset of every compiled user dictionary, char_def.bin and unk.bin of the enumerated sources"),
 "C08": ("model_checking", "stateless model checking of the real code: a controlled scheduler (switch points at every basic block, store, load and allocation) executes every schedule of two calls within preemption bounds, and the tree of all call histories up to a depth is executed with one forked process per node", "every schedule with one preemption; with two at allocations; with two and three at accesses that conflict; every history over five sets of operations up to depths 2 to 8; sequentially consistent memory"),
 "C10": ("model_checking", T_DICT, "every small char.def over enumerated definition and range lines, in every line order; categories of every character of the affected planes compared with a reference"),
 "C11": ("model_checking", T_DICT, "every pair of ids of enumerated square and rectangular tables up to the 16-bit limits; unk.def rows over every line order"),
 "C09": ("model_checking", T_MODEL, "every placement of delimiters in every text up to a bound; whole-text run compared with the piecewise runs"),
 "C12": ("model_checking", T_FILT, "every key set over small alphabets, every replacement set, every text up to a bound; every Unicode character as a key"),
 "C13": ("model_checking", T_FILT, "every expression of an enumerated grammar (reference backtracking matcher), every replacement template, every text up to a bound"),
 "C14": ("model_checking", T_FILT, "every Unicode character, every pair of characters that take part in (de)composition, every text over a core set, in the four forms"),
 "C15": ("model_checking", T_FILT, "every text over characters and marks up to a bound, every character before every mark, every run length, all option combinations"),
 "C16": ("model_checking", T_FILT, "every one and two key mapping, every enumerated expression, normalisation of every character, all pipelines of two and three filters over texts; a reference alignment is computed for each step and the offsets the analyzer reports are checked against it"),
 "C17": ("model_checking", T_TOK, "every word, tag and length condition set against every token sequence up to a bound; length bounds over a grid"),
 "C18": ("model_checking", T_TOK, "every Unicode character and every text up to a bound through every text-rewriting filter, with and without the unknown-word mark; every number of details"),
 "C19": ("model_checking", T_TOK, "every value of a group in every writing, all pairs of groups, all sets of large units, every text over the numeral characters up to a bound"),
 "C20": ("model_checking", T_TOK, "every sequence of selected, unselected and partly matching tokens up to a bound, for every selection of tags and every configured compound tag"),
 "C21": ("model_checking", T_TOK, "every ordered chain of filters up to a length, built in six ways (JSON, file, parts, flags, clone, clone of a clone), on every text of the set; every near miss of every filter name and every value of every setting in every place"),
 "C22": ("fault_enumeration", "exhaustive fault enumeration: every single damage (line, field, cut, missing file) of the sources of every format is built by the real code and judged by a reference reader; every combination of values of the settings of every filter", "every line and field operation, every bad value in every field, every cut, every missing file of the sources of five formats; thorough: pairs of damages"),
 "C23": ("model_checking", "explicit-state exploration of a bounded space of contents and dictionary sources; every state is compressed, decompressed and compared with the original by the real code, and embedded compressed dictionaries are compared with plain ones", "all byte strings up to 2 bytes, all strings over four bytes up to a bound, nine patterns at every length up to a bound and around powers of two, four algorithms; every enumerated source through both builders"),
 "C24": ("model_checking", "exhaustive enumeration of the bounded space of command lines and inputs; every state is one execution of the real tool, compared line by line with the library", "full product of options, every filter sequence up to a length, every line of up to n chunks, every cut of a piped input, enumerated invalid invocations, build of enumerated sources"),
 "C25": ("model_checking", "exhaustive enumeration of the bounded space of names and configurations; every state is executed by the real code and compared with the builder crates and dictionaries the names stand for", "every kind and mode name and every one-edit neighbour, full products of kind, path, extension and content, every field sequence up to a length, every configuration of a product written and read back"),
 "C26": ("fault_enumeration", "exhaustive fault enumeration on the real tool: a preloaded injector numbers the file operations of a run, and the run is repeated once for every operation and every kind of fault or crash point; reproducibility by exhaustive enumeration of creation orders, old contents, build histories, directory names and hash seeds", "every open, create, read, write, mkdir and directory read of 46 runs of the tool (system and user builds of five formats, small and large, fresh and over old files; tokenising with all three output formats) x up to eight faults; all 720 creation orders; all 128 subsets of old files; all histories up to length 3"),
}
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        lv, tech, note = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": tech, "level": lv, "level_note": note})
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "All checks run the real code through its public API; no hooks are needed in /repo."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
