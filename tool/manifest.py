"""writes MANIFEST.json from the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "static analysis: abstract interpretation of the generator, rules on the symbolic templates of the generated files"
TP = "static analysis: abstract interpretation of the parser functions, rules on guarded effects"
TE = "static analysis: abstract interpretation of the whole program, safety obligations and effects"
NOTE = ("Decided over all message lists and options at once from the current source; trusts the clang front end, the abstract semantics "
        "of the C++ library in engine/lib.py and the rules of this check. ")
CLAIMED = {
    "C04": (T, "Templates of macros, pack and unpack functions."),
    "C01": (T, "Partitioned by byte order, start bit modulo 8 and length; start byte, frame length and the other signals' contributions stay symbolic."),
    "C02": (T, "Same partitions, with the fit condition assumed and negated; the emitted text is parsed as a C expression."),
    "C03": (T, "Type selection for every length and sign; bit-linear evaluation of the sign extension helper; bitext_t must be configured wide enough."),
    "C05": (T, "The dispatch tree is decided by structural induction over its construction and printing; identifiers of distinct messages differ."),
    "C06": (T, "Group lists are filters over the message list turned into membership formulas; message identifiers are distinct."),
    "C07": (T, "Macro bodies are parsed and composed symbolically; the conversion formula is checked over reals, not for rounding."),
    "C08": (T, "Order and presence of the statements under every configuration; the rolling counter equation is tabulated over its whole range."),
    "C12": (TP, "Every kind of annotation with every way its identifier and name can match, on abstract files whose names, texts and numbers are symbolic."),
    "C13": (TP, "Every kind of header and signal line with all numbers of each range at once, and sequences of good and bad definitions up to a length."),
    "C20": (TP, "Comments, attributes and value tables over several lines, closed and abandoned, with lines of every kind inside and after them."),
    "C14": (T, "Buffer fill and length limit; the scan of the parser for the longest frame is decided on its loop."),
    "C21": (T, "Version macros and their cross-check conditions."),
    "C09": (T, "Every name the generated files use is resolved to a declaration, its condition compared with the use's; documented user items are trusted, and in node utilities a frame's declaration (C06) and the text of the dispatch tree writer (C05)."),
    "C10": (T, "Nesting tracked through all guarded lines; names in the DBC are assumed to be identifiers."),
    "C16": (TE, "Every create, overwrite and directory operation of the program with its path condition; paths are compared component-wise."),
    "C18": (TE, "Path, open mode, marks, start and failure handling of every written file; lengths of fixed buffers."),
    "C11": (T, "Every value in the text of a file is traced back: names, numbers and types in code, free texts in line comments that are reopened after line ends; formats are literals; the reading side on abstract files with special characters; make_c_name for every byte."),
    "C19": (T, "Every symbol a text depends on is traced back; the library model gives time, environment, randomness, addresses, file system state and unset data symbols of their own."),
    "C15": (TE, "Every function reachable from main on all paths: accesses, pointers, deletions, buffers, exceptions, termination of loops and recursions; "
            "sizes are unbounded. Floating-point conversions, stack depth (apart from the recorded finding) and memory exhaustion are not covered."),
    "C17": (TE, "Options recogniser interpreted on argument vectors of words with symbolic file names; effects of the options on every generated line are read from the templates."),
}
NA = {
    "N01": "The decimal digits of a double are a runtime floating-point quantity (rounding inside printf); no sound static argument over the source bounds the printed error.",
}
PENDING = "Not claimed yet: the check is being built."
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from engine import model; model.ensure_vx()\"",
     "checks": [{"property": p, "quick_cmd": "python3 engine/run.py %s quick" % p, "thorough_cmd": "python3 engine/run.py %s thorough" % p,
                 "technique": CLAIMED[p][0], "level": "other", "level_note": NOTE + CLAIMED[p][1]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in CLAIMED],
     "notes": "The checks analyse /repo's working tree on every run; /repo is not instrumented (no hooks)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
