#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

FRONT = ("TLA+ specification of the front end (spec/Lex, Parse, Resolve, Types, Front) run by TLC on generated sources as an "
         "executable oracle; answers of the real compiler are replayed against it (spec/FrontCases)")
EVAL = ("TLA+ specification of evaluation (spec/Word, Eval: lowering to code and an abstract machine) run by TLC on generated "
        "programs as an executable oracle (spec/EvalCases); all evaluators are compared with it")
NOTES = {
    "C19": ("TLA+ specification of the standard functions as functions on words, byte strings and sequences (spec/Std), its laws "
            "model checked for all small arguments (spec/StdLaws), results of real calls checked against it by TLC (spec/StdCases)",
            "all functions are called on all small, boundary and random arguments in an unoptimised and an optimised evaluator"),
    "C01": (EVAL, "outcomes of the three evaluators without optimisation are compared with the specified outcome; words of the "
                  "specification are model checked exhaustively for small sizes"),
    "C02": (EVAL, "outcomes with optimisation are compared with the specified outcome, and generated code is verified"),
    "C03": ("TLA+ model of the collector (spec/Heap: collections may happen at any allocation) which refines a machine with "
            "unlimited memory (spec/Registers), checked by TLC; behaviours generated by TLC from it (spec/HeapRuns) are replayed "
            "as programs", "the model is checked exhaustively for small bounds, generated behaviours and long running programs "
            "are run in the real machine with small stacks and limited memory"),
    "C12": ("TLA+ model of a document that is analysed lazily (spec/Lazy), checked by TLC, which also generates histories of "
            "queries from it; they are replayed in the real thing, and followed by the specification of the front end "
            "(spec/LazyCases)", "answers along histories are compared with answers of units that nothing was asked before"),
    "C13": ("TLA+ model of loading of modules (spec/Graphs, Loader, LoaderModel), all small graphs checked by TLC; loading with real "
            "contents and file systems (spec/GraphCases) decided by TLC and compared with the command line compiler",
            "directories with files, links and wrong paths are given to the real command line compiler"),
    "C14": ("TLA+ model of an editor and the language server (spec/Session: versions, staleness, refreshing), checked by TLC, which "
            "also generates sessions (spec/SessionRuns) with what has to be shown after each event; they are replayed in the real "
            "server", "diagnostics shown by the real server after each event of a session are those of what the model says is current"),
    "C15": ("TLA+ specification of positions (spec/Positions), its laws model checked for all small texts (spec/PositionModel); "
            "answers of the real server are decided by it (spec/PositionCases)",
            "the real server is asked about all positions of texts with wide characters and all kinds of line ends"),
    "C16": ("TLA+ model of an editor and the language server (spec/Session), checked by TLC; sessions generated by TLC are replayed in "
            "the real server with requests of all kinds, answers are decided by spec/PositionCases",
            "each request of generated sessions has one response, about the current text"),
    "C18": ("TLA+ specification of evaluation of a main function on bytes (spec/MainCases); real outputs for all kinds of inputs "
            "are checked against it by TLC", "all runners and the command line are run on bytes of all kinds"),
    "C04": (EVAL, "accepted programs are compiled, verified, optimised and evaluated by everything; nothing may crash, and the "
                  "specified machine may not get stuck"),
    "C05": (FRONT, "TLC computes the type errors of each source; places and kinds of all of them are compared, over random well "
                   "and ill typed programs and all small pairs of expressions in all contexts"),
    "C06": (FRONT, "errors about coverage are compared with their texts, over matches with any subset and order of branches"),
    "C07": (FRONT, "errors about names, definitions and references are compared at all positions"),
    "C08": (FRONT, "definition and references are compared at all positions of each source"),
    "C09": (FRONT, "warnings are compared exactly"),
    "C10": (FRONT, "places of syntax errors and the structure of expressions are compared"),
    "C11": (FRONT, "all queries at all positions are run on arbitrary texts, TLC checks spans and order of tokens"),
    "C17": (FRONT, "sets of names offered at sampled positions are compared"),
    "C20": (FRONT, "hover texts are compared at all positions"),
    "C22": ("TLA+ specification of the intermediate language (spec/Core: names, typing, evaluation), run by TLC on the text that "
            "the real compiler emits for generated programs, against what their sources mean (spec/CoreCases, Eval)",
            "emitted text, plain and optimised, is read back, type checked and evaluated by the specification"),
    "C21": (FRONT, "tokens are compared exactly"),
}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), encoding="utf-8") as f:
        props = [json.loads(l)["id"] for l in f if l.strip()]
    checks, missing = [], []
    for p in props:
        if p in registry.MODULES and p in NOTES:
            tech, note = NOTES[p]
            checks.append({
                "property": p,
                "quick_cmd": "python3 tools/check.py %s quick" % p,
                "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": tech,
                "level": "model_checking",
                "level_note": note,
            })
        else:
            missing.append({"property": p, "reason": "the check is not built yet"})
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "python3 tools/setup.py",
            "checks": checks,
            "not_applicable": missing,
            "notes": "Checks need no hooks: they use the public interface of the crates and the binaries.",
        }, f, indent=1)
        f.write("\n")


main()
