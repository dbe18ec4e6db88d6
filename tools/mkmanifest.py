#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule modules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the source (partitioned symbolic-value domain, joins, no solver, no execution)"
NOTE = {}
NOTE["default"] = ("Sound up to the engine's models of argparse, shlex, os, warnings and friends; a case the abstract state does not "
                   "determine is counted as undecided in the evidence and never reported. Assumes the partitions of the input listed in the evidence.")
TECH = {
 "C01": AI + ": write-then-reread of every input partition, data compared with holes by identity",
 "C02": AI + " of every writer over probe values of every attribute; words of the text looked up in the interpreted option table",
 "C03": AI + " of the option-table constructors against committed published tables",
 "C04": AI + " of parse methods against the committed published acceptance tables",
 "C05": AI + " with exception-escape analysis of every input partition",
 "C06": AI + " of the reader on abstract line sequences against a documented model (line numbers)",
 "C07": "points-to and mutation analysis on the abstract heap of several handlers, by " + AI,
 "C08": AI + " of the reader on abstract line sequences against a documented model (sections and bodies)",
 "C09": AI + " of Packages and the reader on selection histories against the last-mention model; write-then-reread",
 "C10": AI + " of the tools as scripts with every fallible call failing in turn (numbered faults); effect analysis of exits, output and temporary files",
 "C11": AI + " of the loader and its callers with every fallible call failing in turn (numbered faults); call-graph rule for network access",
 "C12": AI + " of the conversions; structural rule over every command and data map entry and class hierarchy",
 "C13": AI + " with warning-effect analysis of deprecated and removed syntax",
 "C14": AI + " of line histories of repeatable commands",
 "C15": AI + " of constructors and __call__ (effects of each keyword)",
 "C16": AI + " of printing and resetting in filled abstract handlers",
 "C17": AI + " of the reader on abstract file sets against a documented model (textual inclusion)",
 "C18": AI + " of the preprocessor on abstract line sequences with numbered faults against a documented model",
 "C19": AI + " of the reader in strict and tolerant mode on abstract line sequences against a documented model",
 "C20": AI + ": write-then-reread of lines whose values are holes with blanks",
 "C21": AI + ": write-then-reread of whole handlers",
}
NA = {}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(ROOT, "ksverify", "rules", i.lower() + ".py")) and i not in NA:
            checks.append({"property": i, "quick_cmd": "python3 -m ksverify %s --tier quick" % i,
                           "thorough_cmd": "python3 -m ksverify %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": TECH.get(i, AI), "level": "other", "level_note": NOTE.get(i, NOTE["default"])})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
    m = {"version": 1, "setup_cmd": "python3 -c 'import ksverify.program'", "checks": checks, "not_applicable": na,
         "notes": "Static analysis only: /repo is parsed, never imported or run by a check."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print([c["property"] for c in checks])
main()
