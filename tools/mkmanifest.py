#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = "TLA+ model of the interface (RleApi, checked by TLC) + trace validation: recorded histories of the real code judged by TLC; + behaviours of the model that TLC writes, followed by the code"
NOTE = ("Bounded: the model is checked exhaustively for small constants; the code is bound to it by following all generated behaviours of small instances and by random histories over 39 instantiations, "
        "screened by a mirror of the model, TLC judging all odd ones and a sample of the rest. Trusts the mirror for the histories not sampled.")
CHECKS = {p: (HIST, "model_checking", NOTE) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C12 C13 C15 C16".split()}
EXTRA = {
    "C11": ("TLA+ model of clone-on-write over reference counts (CowRef over CowMem, all interleavings checked by TLC) + trace validation: executions of the real "
            "code under controlled schedules, with every operation on a count and access to a node recorded, judged by TLC for races by happens-before",
            "model_checking", "Bounded: 2-3 threads in the model; for the code, schedules with at most 2 forced preemptions plus random ones at the granularity of "
            "operations on counts, sequentially consistent values (weak memory only through happens-before of the orderings used)."),
    "C14": ("TLA+ model of slice ownership under unwinding (Own, all panic points checked by TLC) + trace validation: panics injected into every call to user code "
            "made by chosen calls of the real code, the life of every slice judged by TLC",
            "model_checking", "Bounded: 4 to 5 slots in the model; the code is bound by panics at every user-code call of sampled calls over 12 instantiations."),
    "C22": ("TLA+ model of slice ownership under unwinding with lying user code (Own with Lies, checked by TLC) + trace validation: wrong answers injected at calls to user code "
            "of the real code, built with and without debug assertions, the life of every slice judged by TLC",
            "model_checking", "Bounded: 4 to 5 slots in the model; the code is bound by wrong answers at calls to user code of sampled histories over the counting index type; memory errors show "
            "only as wrong lives of slices, crashes, or reached `weak_unreachable` / assertions of unsafe code."),
    "C17": (HIST, "model_checking", "Bounded as C01; serialised forms are compared through serde_json (text and value) and a probing serializer."),
    "C18": ("TLA+ model of ranges over a dense order (Bounds, all pairs checked by TLC) + TLC judging the table of the crate's answers to all pairs of range forms",
            "model_checking", "Exhaustive over 3 distinct values per element type; relies on the crate using its element type only through Ord/PartialOrd."),
    "C23": (HIST, "model_checking", "Bounded: the model is checked for up to 8 positions over 3 values; the code is bound by random histories over 13 instantiations, screened by a mirror of the model, TLC judging all odd ones and a sample."),
    "C19": (HIST, "model_checking", "Bounded as C01, on the reference model Mock instead of the tree."),
}
NA = {
    "C20": "Draining is unimplemented: every drain method of the crate is todo!() and unreachable behind a private constructor; there is no behaviour to bind a specification to.",
    "C21": "A property of which programs the compiler accepts; there is no state machine whose behaviours could be checked against the code.",
}
PENDING = {}
HOOKS = dict(guard="--cfg sherman_verif", enable="RUSTFLAGS='--cfg sherman_verif' for the crate /verif/cowh (C11 only)", source_commits=["cb62e98"])
exec(open(os.path.join(ROOT, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_more.py")) else None
CHECKS.update(EXTRA)
m = dict(version=1, setup_cmd="python3 check.py build", checks=[
    dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough", technique=t, level=l, level_note=n)
    for p, (t, l, n) in sorted(CHECKS.items())])
if HOOKS:
    m["hooks"] = HOOKS
m["not_applicable"] = [dict(property=p, reason=r) for p, r in sorted({**NA, **{k: v for k, v in PENDING.items() if k not in CHECKS}}.items())]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
