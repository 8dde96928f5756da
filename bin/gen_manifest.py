#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "bounded exhaustive enumeration of executions of the real code against a reference model"
T = {
    "C01": (EX + " (operand configurations)", "operands: all stored forms up to a per-base length, all length pairs and all deviating positions with structured digits; digits of wide bases range over boundary values only"),
    "C02": (EX + " (operand configurations)", "as C01, for subtraction"),
    "C03": (EX + " (operand configurations)", "as C01; lengths over the transform thresholds up to 1025 against schoolbook, up to 2^17 digits against closed forms"),
    "C04": (EX + " (operand configurations)", "quotient lengths bounded by the quadratic division; structured digits beyond the shortest operands"),
    "C05": (EX + " (operand configurations)", "all pairs of short stored forms, all pairs of deviating positions, all length pairs up to the bound"),
    "C06": ("explicit-state exploration of all operator chains and all special-value pairs against an extended-real model", "chain depth and finite operand forms are bounded"),
    "C07": ("explicit-state closure of reachable values plus exhaustive inductive step over canonical operands", "closure limited to a digit bound and a state cap (reported); the inductive step is exhaustive per length bound"),
    "C08": (EX + " (operand configurations with mutation probes)", "bounded operand lengths"),
    "C09": (EX + " (stored forms and stream formats)", "all digit values up to 65535, boundary digits above; all lengths up to the bound"),
    "C10": ("exhaustive exploration of all edit sequences up to a depth, mirrored on a plain sequence", "sequence depth, start states and positions are bounded"),
    "C11": ("exhaustive exploration of index/state combinations and of all assertion sequences up to a depth, observed at file-descriptor level", "bounded lengths and sequence depth"),
    "C12": ("exhaustive exploration of all single-allocation-failure points of every operation of the real code", "one failing allocation per execution; bounded operands"),
    "C13": ("exhaustive exploration of all copy/move/modify sequences between three objects up to a depth, against plain values", "sequence depth and values are bounded"),
    "C14": (EX + " (all 8-bit operand pairs, boundary pairs for wider types)", "32- and 64-bit operands range over boundary values"),
    "C15": ("exhaustive state-space walk: counting through every value of an interval and every carry length, against an odometer model", "interval and length bounds"),
    "C16": ("exhaustive exploration of operation sequences and operand pairs of the real code under address/undefined-behaviour monitors, with hang and leak detection", "sequence depth 3 or 4, bounded lengths"),
    "C17": ("stateless model checking of two real threads under a controlled scheduler, exact partial-order reduction, preemption bounding", "two threads, one or two actions each, sequential consistency; preemption bound 2 (quick) or 3 once threads conflict"),
    "C18": ("differential exhaustive enumeration: every case executed by every build variant and in every base, outcomes compared", "7 variants (quick) or 20 (thorough); bounded operands and depth"),
    "C19": (EX + " (radix conversions and byte strings)", "bits of converted numbers and string lengths are bounded"),
    "C20": (EX + " (signals, spanned by unit impulses, and convolution operands)", "power-of-two lengths up to the bound; numerical tolerance"),
    "C21": ("exhaustive exploration of computation histories up to length two or three plus all live-object sequences up to a depth, against outcomes in fresh processes", "alphabet of computations and depth are bounded; quick tier thins cross-type pairs and triples"),
    "C22": (EX + " (digit container pairs for every free function)", "all pairs of short sequences, all length pairs up to 40/72 and listed lengths up to 3000 with structured digits"),
    "C23": ("exhaustive exploration of selections of process-life phases, each run as a real process under address/undefined-behaviour monitors, against outcomes in main", "selections of up to 2 (quick) or 3 (thorough) phases and nearly all phases; a fixed alphabet of computations"),
    "C24": ("exhaustive enumeration of sequences x standard algorithms and container scripts executed on the real numbers and on plain model values", "all sequences of up to 5 (quick) or 6 (thorough) numbers over five alphabets of six; shaped sequences to length 257 (1500)"),
    "C25": ("exhaustive enumeration of argument pairs of the debug-mode guard and of scripts over exception objects, executed on the real code built with BN_DEBUG against an integer model", "every first-difference position to length 70 (260), lengths to 130 (400) and selected to 65537; scripts of 4 (5) steps"),
    "C26": ("exhaustive fault enumeration (the stream fails at the k-th character, for every k) on the real output code against a model text", "all short numbers, structured ones to 70 (200) and selected to 1024 digits, five buffer sizes, refusing and throwing streams"),
}
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                "technique": t, "level": "model_checking", "level_note": n} for p, (t, n) in sorted(T.items())],
    "not_applicable": [],
    "notes": "No hooks in /repo: the explorers link the library's own sources. KNOWN_FINDINGS.txt lists the repaired defects; there are no open findings.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
