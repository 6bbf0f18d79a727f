#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "TLA+ specification explored by TLC; its behaviours replayed into the code"
SAY = {
 "C01": "The specification gives every explored input one outcome; the code must end with one too, without panic or hang, and with every required part of the tree.",
 "C02": "TLC enumerates every sequence of block commands up to the depth (4 quick, 5 thorough) and checks the nesting invariants in every state; each is replayed, and random deeper and damaged scripts are.",
 "C03": "All pairs and level-triples of operators, and random token sequences, parsed by the specification's grammar and by the code.",
 "C04": "Small alphabets taken exhaustively for numbers, strings, braces, brackets and calls, then random; trees compared node by node.",
 "C05": "Line, column and offset of every node against the positions the reader of the specification gives its cells; CRLF inputs are out of the property.",
 "C06": "Splittings of lines at every place, compared with the specification's reader and with the joined line.",
 "C07": "Bodies and markers of all verbatim forms over small alphabets, then random.",
 "C08": "The whole command table: every name, abbreviation and near miss, both editors, in random orders in one script.",
 "C09": "Modifiers, ranges, options and bangs in all pairs and random combinations.",
 "C10": "Small alphabets of bars, quotes, backslashes after every kind of command, then random lines.",
 "C11": "Headers over small alphabets exhaustively, then random.",
 "C12": "Targets over small alphabets and every command that takes them, then random.",
 "C13": "The traversal as a state machine driven by visitor answers; every call of the real visitor is compared with the specification's trace.",
 "C14": "The S-expression defined in TLA+ on the specification's tree; text compared byte for byte, with other indents and failing writers.",
 "C15": "What the code printed is parsed by the specification, whose invariant compares the trees, also of trees stripped of their parenthesis nodes.",
 "C16": "Message, line, column, offset, file and text of each error against the first error of the specification.",
 "C17": "The interleavings of the model are explored exhaustively; a history recorded from goroutines under the race detector is validated against it as a trace.",
 "C18": "Argument lists, files and failures as a TLA+ transition system; the built tool is run on every behaviour.",
 "C19": "Each behaviour is replayed into the Vim script parser (run in Vim), the Go parser and a parser generated afresh; the generator's output is compared with the committed file.",
 "C20": "TLC enumerates every way a reader can hand out small inputs, with failures at every point; each is replayed through an io.Reader that follows it. Long lines and invalid UTF-8 besides.",
 "C21": "Argument lists in small alphabets, then random, for every command with expression arguments.",
}
checks = []
for k in sorted(SAY):
    checks.append(dict(property=k, quick_cmd="./check %s quick" % k, thorough_cmd="./check %s thorough" % k, evidence_file="evidence/%s.json" % k,
                       technique=T, level="model_checking",
                       level_note=SAY[k] + " Bounded: exhaustive within the stated scopes, sampled beyond them. Trusts TLC, the driver in driver/ that shows trees of the code, and the translation of characters to cells in vp/core.py."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="TLA+ with TLC. No hooks are needed in /repo: the public API shows the whole state. './check --replay FILE' shows what a replay file recorded against the current tree.")
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
