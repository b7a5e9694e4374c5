#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's working tree.
Exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: no answer."""
import json, re, subprocess, sys, os
from lib import *

# what is compared when a recorded history is validated, per property
ASPECTS = {
    "C01": ["content"],
    "C02": ["content", "runs", "calls"],
    "C03": ["get", "runs"],
    "C04": ["iter", "runs"],
    "C05": ["content", "runs", "get", "iter", "path", "fault"],
    "C06": ["path"],
    "C07": ["shape", "cost"],
    "C08": ["ref", "path", "fault"],
    "C09": ["bor", "ref", "acct", "fault"],
    "C10": ["content", "runs", "get", "iter", "path", "clone", "fault"],
    "C12": ["share", "fault"],
    "C13": ["acct", "fault"],
    "C15": ["bad", "content", "runs", "acct", "bor", "fault"],
    "C16": ["content", "runs", "calls", "get", "iter", "ref"],
}
SMALL = {
    "C17": ("serde", ["serde", "content", "runs", "acct", "fault"], "lists of runs and damaged lists serialised and read back across 9 pairs of (parameterisation, index type, width)"),
    "C23": ("constant", ["content", "runs", "get", "iter", "ref", "acct", "fault"], "histories of trees of Constant<T> over 13 combinations of index type, type of values (unit, bool, u8, String, over-aligned, accounted for), parameterisation and width"),
    "C19": ("mock", ["content", "runs", "get", "iter", "ref", "bad", "fault"], "histories of the reference model Mock over 8 (index type, joinability) pairs"),
}
MODELS = {
    "C01": [("MCRleApi", "MC_content.cfg")], "C02": [("MCRleApi", "MC_content.cfg")], "C03": [("MCRleApi", "MC_content.cfg")],
    "C04": [("MCRleApi", "MC_content.cfg")], "C05": [("MCRleApi", "MC_content.cfg")], "C06": [("MCRleApi", "MC_content.cfg")],
    "C07": [("MCBTree", "MC_btree1.cfg"), ("MCBTree", "MC_btree2.cfg"), ("MCBTree", "MC_btree3.cfg")],
    "C08": [("MCRleApi", "MC_refs.cfg")], "C09": [("MCRleApi", "MC_refs.cfg")], "C10": [("MCRleApi", "MC_clones.cfg", 6)],
    "C23": [("MCRleApi", "MC_constant.cfg"), ("MCRleApi", "MC_constrefs.cfg")],
    "C12": [("MCCow", "MC_cow1.cfg"), ("MCBTree", "MC_btree1.cfg")], "C13": [("MCRleApi", "MC_refs.cfg")], "C15": [("MCRleApi", "MC_refs.cfg")], "C16": [("MCRleApi", "MC_content.cfg")],
}

# behaviours generated from the model that the code has to follow: configuration, parameterisations, larger constants for `thorough`
ALL = "NoFeatures,AllowCow,AllowSliceRefs"
GENS = {
    "content": (ALL, {"MaxSize": 6, "MaxRuns": 6}),
    "shape": (ALL, {"MaxCalls": 9}),
    "cut": (ALL, {"MaxCalls": 8}),
    "refs": ("AllowSliceRefs", {"MaxSize": 4, "MaxRuns": 4}),
    "clones": ("NoFeatures,AllowCow", {"MaxSize": 4, "MaxCalls": 10}),
    "cow": ("NoFeatures,AllowCow", {"MaxCalls": 9}),
    "treejoin": (ALL, {"MaxRuns": 6}),   # all trees of width 1 to 2: insertions between, inside, joining left or right
    "treecut": (ALL, {"MaxRuns": 10}),   # width 2 to 4: between and inside
    "tree1": (ALL, {"MaxRuns": 18}),     # width 1 to 2: between
    "tree2": (ALL, {"MaxRuns": 23}),     # width 2 to 4: between
}
REPLAY = {
    "C01": ["content", "cut", "treejoin"], "C02": ["content", "cut", "treecut"], "C03": ["content", "shape", "tree2"], "C04": ["content", "shape", "tree1"],
    "C05": ["content", "shape", "tree2"], "C06": ["content", "shape", "tree1"], "C07": ["treejoin", "treecut", "tree1", "tree2"], "C08": ["refs", "shape", "cut", "treejoin"],
    "C09": ["refs"], "C10": ["clones", "cow"], "C12": ["cow"], "C13": ["content", "refs"], "C16": ["content", "treejoin"],
}


def replays(c, binary):
    """Model to code: TLC writes behaviours of RleApi, the code follows each and shows what TLC said"""
    samples, suspects = [], []
    names = REPLAY.get(c.pid, [])
    with ThreadPoolExecutor(3) as ex:
        gen = list(ex.map(lambda g: generate(c, g, {} if c.quick else GENS[g][1]), names))
    for g, (f, r) in zip(names, gen):
        sums, sa, su = drive_replay(c, binary, g, f, GENS[g][0], 100 if c.quick else 500)
        samples += sa
        suspects += su
        n, ses = sum(s["lines"] for s in sums), sum(s["sessions"] for s in sums)
        c.add("behaviours_generated", n)
        c.add("behaviours_followed", ses)
        if g.startswith("tree"):
            c.add("trees_compared_with_BTree", sum(s["ways"][0] for s in sums))
            c.add("trees_built_as_BTree_says", sum(s["ways"][1] for s in sums))
        c.cov.setdefault("models", []).append(f"{'GenTree' if g.startswith('tree') else 'Gen'} with Gen_{g}.cfg{'' if c.quick else ' ' + str(GENS[g][1])}: {r.distinct} distinct states, {r.generated} transitions, {r.wall:.0f} s, "
                                              f"exhaustive; {n} behaviours, followed {ses} times by the code")
        print(f"model Gen/Gen_{g}.cfg: {r.distinct} states, {n} behaviours, followed {ses} times, {sum(s['suspects'] for s in sums)} odd", flush=True)
        os.unlink(f)
    return samples, suspects


def histories(c):
    """Random histories of the public interface, judged by TLC against RleApi and Shape"""
    asp = ASPECTS[c.pid]
    binary = build()
    model_check(c, MODELS[c.pid])
    ms = 25_000 if c.quick else 420_000
    sums, samples, suspects, crashes = drive(c, binary, c.pid, ms, 1500 if c.quick else 6000)
    for seed, pre, how in crashes:
        lines, why = recover_crash(c, binary, c.pid, seed, pre, how)
        if lines is None:
            raise ToolError(why + "\n" + open(pre + ".log").read()[-1500:])
        ok, k, r = (False, len(lines), None)
        if how != "exit -9":
            c.violation(why, lines)
        else:
            raise ToolError(why)
    sa, su = replays(c, binary)
    nsus = len(suspects) + len(su)
    judge(c, samples + sa, su[:20] + suspects, asp)
    c.cov["aspects"] = asp
    c.cov["evaluations"] = sum(s["sessions"] for s in sums) + c.cov.get("behaviours_followed", 0)
    c.cov["events_screened"] = sum(s["events"] for s in sums)
    c.cov["insertions_screened"] = sum(s["inserts"] for s in sums)
    c.cov["largest_run_list"] = max([s["maxn"] for s in sums] or [0])
    c.cov["deepest_tree"] = max([s["maxdepth"] for s in sums] or [0])
    kinds = {}
    for s in sums:
        for a, b in s["kinds"].items():
            kinds[a] = kinds.get(a, 0) + b
    c.cov["events_by_kind"] = kinds
    c.cov["suspicious_histories"] = nsus
    c.cov["distinct_nontrivial"] = sum(s["sessions"] for s in sums)
    c.cov["rule"] = ("seeded random histories over 39 instantiations of (parameterisation, index type, joinability, width); all are screened by an "
                     "executable mirror of RleApi/Shape, every suspicious one and a sample of the others is judged by TLC; a history counts as "
                     "non-trivial because it has at least one insertion, split, join, lookup or reference event besides creating a tree; "
                     "behaviours_followed: behaviours that TLC wrote from the model, followed by the code in up to 9 instantiations")
    if samples:
        c.cov["samples"] = ["".join(samples[0][:12])[:3000]]
    known_findings(c, binary)


def small(c):
    """As histories, for the drivers with their own kind of history"""
    cmd, asp, what = SMALL[c.pid]
    binary = build(only=cmd + "s")
    model_check(c, MODELS.get(c.pid, [("MCRleApi", "MC_content.cfg")]))
    sums, samples, suspects = drive_small(c, binary, cmd, 15_000 if c.quick else 300_000, 1500 if c.quick else 6000)
    judge(c, samples, suspects, asp)
    c.cov["aspects"] = asp
    c.cov["evaluations"] = c.cov["distinct_nontrivial"] = sum(s["sessions"] for s in sums)
    c.cov["events_screened"] = sum(s["events"] for s in sums)
    c.cov["suspicious_histories"] = sum(s["suspects"] for s in sums)
    c.cov["rule"] = f"{what}; all screened by a mirror of the model, suspicious ones and a sample judged by TLC; each history performs at least one call with results"
    if samples:
        c.cov["samples"] = ["".join(samples[0][:12])[:3000]]


COWH = dict(crate="cowh", rustflags="--cfg sherman_verif", target=TARGET + "-cow")


def cow(c):
    """Threads that share nodes: all interleavings of the algorithm in the model; for the code, schedules at the granularity of its
    operations on counts, every execution judged for races by happens-before"""
    binary = build(**COWH)
    model_check(c, [("MCCow", "MC_cow2.cfg", 8)] if c.quick else [("MCCow", "MC_cow2.cfg", 8), ("MCCow", "MC_cow3.cfg", 8)])
    c.trace_spec = "TraceCow"
    asp = ["content", "runs", "get", "acct", "fault", "clone"]
    sums, samples, suspects = drive_small(c, binary, "run", 60_000 if c.quick else 500_000, 6000 if c.quick else 30000)
    judge(c, samples, suspects, asp)
    tot = lambda k: sum(s[k] for s in sums)
    c.cov["aspects"] = asp + ["every operation on a reference count and every access to a node, against CowMem"]
    c.cov["evaluations"] = c.cov["distinct_nontrivial"] = tot("sessions")
    c.cov["programs"] = tot("programs")
    c.cov["programs_with_all_single_preemptions"] = tot("whole")
    c.cov["events_screened"] = tot("events")
    c.cov["atomic_operations"] = tot("atomics")
    c.cov["suspicious_histories"] = tot("suspects")
    c.cov["rule"] = ("seeded programs of 2 or 3 threads (insert, clone, read, drop, hand over, use a lent tree) on trees sharing nodes, width 1 to 3; each "
                     "run without preemption, with every single preemption (if at most 120 steps), 30 pairs of preemptions and 30 random schedules; all screened "
                     "by a mirror of CowMem, suspicious ones and a sample judged by TLC; counted: schedules, each with at least two threads on shared nodes")
    if samples:
        c.cov["samples"] = ["".join(samples[0][:20])[:3000]]


def panics(c):
    """Calls to user code that panic (C14) or give a wrong answer (C22): what happens to every single slice, and to all other trees"""
    cmd, what = {"C14": ("panics", "panics"), "C22": ("lies", "gives a wrong answer, in every other history every one to twelve calls from there on,")}[c.pid]
    builds = [build(only="panics"), build(only="panics", profile="rel")]
    cfg = {"C14": "MC_own", "C22": "MC_lies"}[c.pid]
    model_check(c, [("Own", cfg + ".cfg")] if c.quick else [("Own", cfg + ".cfg"), ("Own", cfg + "2.cfg")])
    c.trace_spec = "TracePanic"
    asp = ["content", "runs", "get", "iter", "ref", "bor", "fault"]
    sums, samples, suspects = [], [], []
    for binary in builds:
        for all_, new in zip((sums, samples, suspects), drive_small(c, binary, cmd, 16_000 if c.quick else 210_000, 800 if c.quick else 3000, hang_ok=cmd == "lies")):
            all_ += new
    judge(c, samples, suspects, asp)
    tot = lambda k: sum(s.get(k, 0) for s in sums)
    c.cov["aspects"] = asp + ["every making, use, showing and dropping of a slice, against Slices"]
    c.cov["evaluations"] = c.cov["distinct_nontrivial"] = tot("sessions")
    c.cov[{"panics": "panics", "lies": "wrong_answers"}[cmd]] = tot("panics")
    c.cov["events_screened"] = tot("events")
    c.cov["suspicious_histories"] = tot("suspects")
    c.cov["rule"] = ("seeded histories over 12 instantiations, built with and without debug assertions; for chosen calls of each, one history per call to user code "
                     "(split, join, clone, drop of slices, index arithmetic and comparison, cursors) made inside, which " + what + " after which the trees are used "
                     "and dropped; all screened by a mirror of the model, suspicious ones and a sample judged by TLC; counted: such histories")
    if samples:
        c.cov["samples"] = ["".join(samples[0][:20])[:3000]]


def bounds(c):
    """Ranges: the comparison of bounds against the points of a dense line (TLC, exhaustive), and the crate's answers to all pairs"""
    binary = build(only="bounds")
    model_check(c, [("MCBounds", "MCBounds.cfg")])
    f = c.path("table.ndjson")
    r = subprocess.run([binary, "bounds", "--out", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    lines = open(f).readlines() if os.path.exists(f) else []
    if r.returncode != 0:
        c.violation(f"the process died (exit {r.returncode}) while asking about ranges; the table up to there is the replay", lines)
        return
    t = tlc("TraceBounds", "TraceBounds.cfg", env={"TRACE": f}, workers=1, timeout=600)
    c.add("states", t.distinct)
    c.add("transitions", t.generated)
    m = re.search(r'<<\s*"REJECTED",\s*(\d+)', t.out)
    if m:
        k = int(m.group(1))
        c.violation("the crate's answers about this range differ from what ranges mean:\n" + lines[k - 1][:3000], lines[k - 1])
    elif not re.search(r'<<"ACCEPTED", (\d+)>>', t.out):
        raise ToolError("TLC gave no verdict on the table:\n" + t.out[-3000:])
    n = sum(len(json.loads(l)["over"]) for l in lines)
    c.cov["traces_validated_against_impl"] = len(lines)
    c.cov["evaluations"] = c.cov["distinct_nontrivial"] = n
    c.cov["rule"] = ("every range form (.., a.., ..b, ..=b, a..b, a..=b, pairs of core bounds, a user-defined range) over 4 element types, passed by value and by "
                     "reference, with all bounds over the known values; for each, all accessors and its overlap with every other range; exhaustive")
    c.cov["samples"] = [lines[len(lines) // 2][:2000]] if lines else []


def known_findings(c, binary):
    """The recorded, unrepaired findings: shown again on every run"""
    for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["open"]:
        if c.pid not in k["properties"]:
            continue
        r = subprocess.run([binary, "probe", k["probe"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if "STILL" in r.stdout:
            print(f"KNOWN-FINDING: property={c.pid} {k['what']}")
            c.cov.setdefault("known_findings", []).append(k["what"])


CHECKS = {p: histories for p in ASPECTS}
CHECKS.update({p: small for p in SMALL})
CHECKS["C18"] = bounds
CHECKS["C11"] = cow
CHECKS["C14"] = CHECKS["C22"] = panics


def run(c):
    if c.pid not in CHECKS:
        raise ToolError(f"no check for {c.pid}")
    CHECKS[c.pid](c)


if __name__ == "__main__":
    if sys.argv[1:2] == ["build"]:
        build()
        build(**COWH)
        sys.exit(0)
    main(run, sys.argv)
