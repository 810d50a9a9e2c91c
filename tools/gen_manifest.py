#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below; properties without an entry are listed as not claimed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
GEN = "exhaustive enumeration of bounded program spaces run through the real formatter"
C = {
 "C01": ("exploration", "bounded exhaustive exploration: " + GEN + ", token streams compared by an independent lexer", ""),
 "C02": ("exploration", "bounded exhaustive exploration: " + GEN + ", comments compared by an independent lexer", ""),
 "C03": ("exploration", "bounded exhaustive exploration: " + GEN + " without options, outputs compared with the source", ""),
 "C04": ("exploration", "bounded exhaustive exploration: all derivations of the Lua 5.3 grammar to a bound and their single-token edits, compared with an independent recogniser", ""),
 "C05": ("exploration", "bounded exhaustive exploration: all short texts, truncations and edits x option subsets x line ranges on the real code under a watchdog", ""),
 "C06": ("model_checking", "explicit-state exploration: states are texts, transitions are runs of the real formatter, fixpoint after one step checked from every source of the space", ""),
 "C07": ("exploration", "bounded exhaustive exploration: all re-spacings of each program of the space against its reference spelling, on the real code", ""),
 "C08": ("exploration", "bounded exhaustive exploration: all line ranges of all programs of the space x option sets on the real code", ""),
 "C09": ("exploration", "bounded exhaustive exploration: all line ranges of all programs of the space, compared with whole-file runs", ""),
 "C10": ("exploration", "bounded exhaustive exploration: " + GEN + ", indentation compared with the structure found by an independent parser", ""),
 "C11": ("exploration", "bounded exhaustive exploration: every maximum width for every program of the space, each construct's layout compared with the fits-the-width rule and every line break with a reference model", ""),
 "C12": ("model_checking", "explicit-state model of option settings; every setting sequence to a bound replayed on the real code through all channels", ""),
 "C13": ("model_checking", "explicit-state model of config lookup; every placement in a directory chain replayed on the real command", ""),
 "C14": ("model_checking", "explicit-state model of file selection; every small directory tree replayed on the real command", ""),
 "C15": ("model_checking", "explicit-state model of a batch run; every batch to a bound replayed on the real command", ""),
 "C16": ("fault_enumeration", "exhaustive fault and crash-point enumeration: every file-system call of an in-place run fails, is cut short, or is the last one", ""),
 "C17": ("model_checking", "explicit-state exploration of call histories on the real code, with concurrent calls", ""),
 "C18": ("exploration", "bounded exhaustive exploration: all string bodies to a length bound at every syntactic position, values compared by an independent decoder", ""),
 "C19": ("exploration", "bounded exhaustive exploration: all line-break patterns of the gaps of the program space x line-break options", ""),
 "C20": ("exploration", "bounded exhaustive exploration: all tables to a bound x separator, trailing-separator and layout options", ""),
 "C21": ("exploration", "bounded exhaustive exploration: " + GEN + ", every gap of the output inspected", ""),
 "C22": ("model_checking", "reference model of the layout, kept bound to the code by exhaustive conformance: all combinations of the options about blanks x bounded program spaces, every gap of the real output compared", ""),
 "C23": ("model_checking", "reference model of the layout, kept bound to the code by exhaustive conformance: all sequences of comments and line breaks in every gap x all combinations of the comment options, every gap of the real output compared", ""),
 "C24": ("model_checking", "reference model of the layout, kept bound to the code by exhaustive conformance: all pairs (thorough: all subsets) of the line-break options x bounded program spaces, every broken gap of the real output compared", ""),
 "C26": ("model_checking", "reference model of the layout under widths, kept bound to the code by exhaustive conformance: every maximum width x full products of the options of each family x bounded program spaces, the whole real output compared", ""),
 "C25": ("exploration", "bounded exhaustive exploration: all shortest wrong token sequences and all one-token edits of programs, the reported place compared with an independent recogniser's", ""),
}
src = open(here + "/mc/src/props/mod.rs").read()
import re
reg = set(re.findall(r"::(C\d\d)", src[src.index("PROPS"):src.index("];", src.index("PROPS"))]))
checks, na = [], []
for line in open(here + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in reg:
        level, tech, note = C[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
          "technique": tech, "level": level,
          "level_note": note or "The real code is executed on every element of the space described by the rule in the evidence file; nothing is sampled. Beyond the bounds nothing is claimed."})
    else:
        na.append({"property": i, "reason": "check still being built"})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
