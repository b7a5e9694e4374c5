#!/usr/bin/env python3
"""Development tool, not a check: would the machinery notice?
  selftest.py models   - removes one rule of a model at a time; TLC has to find a violation
  selftest.py traces   - changes one field of one event of recorded histories at a time; the trace specification has to reject it
                         (prints, per event and field, how many changes were rejected)"""
import copy, json, os, random, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from lib import *

VARIANTS = [
    ("MCCow", "MC_cow2.cfg", 'Variant = ""', f'Variant = "{v}"') for v in ("never copies", "releases first", "does not count children", "no second load", "forgets children")
] + [
    ("MCCow", "MC_cow2.cfg", 'Dec = "release"', 'Dec = "relaxed"'), ("MCCow", "MC_cow2.cfg", 'Uniq = "acquire"', 'Uniq = "relaxed"'), ("MCCow", "MC_cow2.cfg", 'Zero = "acquire"', 'Zero = "relaxed"'),
    ("Own", "MC_own.cfg", "MarkFirst = TRUE", "MarkFirst = FALSE"), ("Own", "MC_own.cfg", "ShiftHoles = TRUE", "ShiftHoles = FALSE"),
    ("Own", "MC_lies.cfg", "MarkFirst = TRUE", "MarkFirst = FALSE"), ("Own", "MC_lies.cfg", "ShiftHoles = TRUE", "ShiftHoles = FALSE"),
    ("Own", "MC_own.cfg", "Refuse = TRUE", "Refuse = FALSE"), ("Own", "MC_own.cfg", "CloneChecks = TRUE", "CloneChecks = FALSE"),
]
# rules of RunSeq and RleApi: text, replacement; found by one of the three instances of MCRleApi
RULES = [
    ("RunSeq", "k1 == IF cut THEN k0 + 1 ELSE k0 ", "k1 == k0 "),
    ("RunSeq", "jr == hasR /\\ Joins(x, r1[k1].d)", "jr == hasR /\\ Joins(d, r1[k1].d)"),
    ("RunSeq", "lo |-> IF d.k = KConst THEN Zero ELSE Add(d.lo, p)]", "lo |-> d.lo]"),
    ("RunSeq", "id == IF jl THEN r1[k1 - 1].id ELSE IF jr THEN r1[k1].id ELSE f1", "id == f1"),
    ("RunSeq", "gone |-> IF jl /\\ jr THEN r1[k1].id ELSE 0", "gone |-> 0"),
    ("RunSeq", "IF Lt(i, b[m + 1]) THEN", "IF Le(i, b[m + 1]) THEN"),
    ("RunSeq", "ELSE IF Lt(hi[2], Zero) THEN 0", "ELSE IF FALSE THEN 0"),
    ("RunSeq", 'k = Len(b) \\/ (hi[1] = "E" /\\ b[k] = hi[2])', "k = Len(b)"),
    ("RleApi", "/\\ Alive(t) /\\ trees[t].held = 0 /\\ InsertOk(t, i, d)", "/\\ Alive(t) /\\ InsertOk(t, i, d)"),
    ("RleApi", "![t].runs = IF trees[t].held = 0 THEN <<>> ELSE @]", "![t].runs = <<>>]"),
    ("RleApi", "![t].runs = IF last /\\ ~trees[t].alive THEN <<>> ELSE @]", "![t].runs = IF last THEN <<>> ELSE @]"),
    ("RleApi", "![t].runs = IF last /\\ ~trees[t].alive THEN <<>> ELSE @]", "![t].runs = @]"),
]
TREE_RULES = [
    ("BTree", "!.pos = [k \\in DOMAIN @ |-> IF k >= c THEN Shifted(@[k], from, to) ELSE @[k]],", "!.pos = [k \\in DOMAIN @ |-> IF k > c THEN Shifted(@[k], from, to) ELSE @[k]],"),
    ("BTree", "Shifted(p, from, to) == Add(to, SubL(p, from))", "Shifted(p, from, to) == Add(SubR(p, from), to)"),
    ("BTree", "KidPos(h, n, c) == SubR(Upto(n, c), h[n.kids[c]].size)", "KidPos(h, n, c) == SubL(Upto(n, c), h[n.kids[c]].size)"),
    ("BTree", "from == KeyEnd(h, nd, l + 1)\n", "from == nd.pos[l + 1]\n"),
    ("BTree", "IN [heap |-> Linked(h2, r),", "IN [heap |-> h2,"),
    ("BTree", "           h == Linked([s.heap EXCEPT ![p] = pm], p)", "           h == [s.heap EXCEPT ![p] = pm]"),
    ("BTree", "s2 == PathUp([s EXCEPT !.heap = h, !.at = Handles(@, h, p)], n, cut)", "s2 == PathUp([s EXCEPT !.heap = h], n, cut)"),
    ("BTree", "s1 == [s EXCEPT !.heap = h, !.at = Handles(@, h, n)]", "s1 == [s EXCEPT !.heap = h, !.at = (items[1].id :> <<n, idx + 1>>) @@ @]"),
    ("BTree", "THEN {M + 1} ELSE {M}", "THEN {M + 1} ELSE {M - 1}"),
    ("BTree", "ELSE [s EXCEPT !.on = cut.new, !.path[1] = @ - (l + 1)]", "ELSE [s EXCEPT !.on = cut.new, !.path[1] = @ - l]"),
    ("BTree", "ELSE IF s.path[1] <= l + 1 THEN s", "ELSE IF s.path[1] <= l THEN s"),
    ("BTree", "IF w < 2 * M THEN Up(s2, p, pn.size, NoCut)", "IF w <= 2 * M THEN Up(s2, p, pn.size, NoCut)"),
    ("BTree", "RightOf(h, n, k) == IF Leaf(h[n]) THEN <<n, k>> ELSE <<FirstLeaf(h, h[n].kids[k + 1]), 0>>", "RightOf(h, n, k) == IF Leaf(h[n]) THEN <<n, k>> ELSE <<FirstLeaf(h, h[n].kids[k]), 0>>"),
    ("BTree", "LET nd == h[n]  r == Fresh(h)  w == Len(nd.keys)", "LET nd == h[n]  r == Fresh(h)  w == Len(nd.keys) - (IF Len(nd.keys) > 2 * M + 1 THEN 1 ELSE 0)"),
]


def models():
    bad = 0
    for spec, cfg, a, b in VARIANTS:
        t = open(os.path.join(SPEC, cfg)).read()
        assert a in t
        r = tlc(spec, None, workers=8, timeout=900, mem="6g", cfg_text=t.replace(a, b))
        print(f"{spec} {b}: {'found: ' + ', '.join(r.violated) if not r.ok else 'NOT FOUND'} ({r.wall:.0f} s)", flush=True)
        bad += r.ok
    for mod, a, b in RULES + TREE_RULES:
        d = tempfile.mkdtemp(dir=os.path.join(ROOT, "work"))
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        t = open(f"{d}/{mod}.tla").read()
        assert a in t, a
        open(f"{d}/{mod}.tla", "w").write(t.replace(a, b))
        hit = []
        for cfg in ("MC_btree1.cfg", "MC_btree3.cfg") if mod == "BTree" else ("MC_content.cfg", "MC_refs.cfg"):
            p = subprocess.run(["tlc", "-workers", os.environ.get("W", "8"), "-noGenerateSpecTE", "-metadir", d + "/m", "-config", cfg, "MCBTree.tla" if mod == "BTree" else "MCRleApi.tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=900, env=dict(os.environ, JAVA_TOOL_OPTIONS="-Xss64m -Xmx6g"))
            if "No error has been found" not in p.stdout:
                v = re.findall(r"(?:Invariant|property) (\S+) (?:is|was) violated", p.stdout)
                hit.append(v[0] if v else "evaluation fails")
        shutil.rmtree(d)
        print(f"{mod}: {b}: {'found: ' + ', '.join(hit) if hit else 'NOT FOUND'}", flush=True)
        bad += not hit
    return bad


SKIP = {"op", "seed", "t", "t2", "r", "r2", "b", "b2", "new", "i", "lo", "hi", "dir", "kind", "ix", "par", "m", "j", "what", "list", "z", "at", "th", "node", "hint"}


def changes(ev, r):
    """One field of one event, changed"""
    for k, v in ev.items():
        if k in SKIP:
            continue
        e = copy.deepcopy(ev)
        path = k
        x, key = e, k
        while isinstance(x[key], list) and x[key] and r.random() < 0.9:
            x, key = x[key], r.randrange(len(x[key]))
        v = x[key]
        if isinstance(v, bool):
            x[key] = not v
        elif isinstance(v, int):
            x[key] = v + r.choice([1, 1, 2])
        elif isinstance(v, str):
            x[key] = {"ok": "panic", "panic": "ok", "none": "ok", "err": "ok"}.get(v, v + "x")
        elif isinstance(v, list):
            x[key] = v[:-1] if v else [7]
        else:
            continue
        yield path, e


def traces():
    c = Check("selftest", "quick")
    h, w = build(), build(crate="cowh", rustflags="--cfg sherman_verif", target=TARGET + "-cow")
    r = random.Random(SEED)
    ALLA = ["calls", "content", "runs", "get", "iter", "path", "shape", "ref", "bor", "acct", "bad", "clone", "fault", "serde", "share"]
    jobs = []
    for name, cmd, spec in (("all", [h, "run", "--prof", "all"], "TraceApi"), ("C09", [h, "run", "--prof", "C09"], "TraceApi"), ("C12", [h, "run", "--prof", "C12"], "TraceApi"),
                            ("mock", [h, "mock"], "TraceApi"), ("serde", [h, "serde"], "TraceApi"), ("panics", [h, "panics"], "TracePanic"), ("cow", [w, "run"], "TraceCow")):
        pre = c.path(name)
        subprocess.run(cmd + ["--ms", "4000", "--sample-events", "2500", "--seed", str(SEED), "--out", pre], check=True, stdout=subprocess.DEVNULL)
        got = {}
        for s in split_sessions(pre + ".sample.ndjson"):
            if len(s) > 120:
                continue
            for x in r.sample(range(1, len(s)), min(6, len(s) - 1)):
                ev = json.loads(s[x])
                for f, e in changes(ev, r):
                    key = (name, ev["op"], f)
                    if got.get(key, 0) < 4:
                        got[key] = got.get(key, 0) + 1
                        jobs.append((key, spec, s, x, e))
    print(len(jobs), "changes", flush=True)

    def one(j):
        n, (key, spec, s, x, e) = j
        f = c.path(f"t{n}.ndjson")
        open(f, "w").write("".join(s[:x]) + json.dumps(e) + "\n" + "".join(s[x + 1:]))
        cc = copy.copy(c)
        cc.trace_spec = spec
        try:
            ok, k, _ = validate(cc, f, ALLA, is_he(s))
        except ToolError as x:
            ok, k = None, 0
        os.unlink(f)
        return key, ok, e
    tab = {}
    with ThreadPoolExecutor(NPROC) as ex:
        for key, ok, e in ex.map(one, enumerate(jobs)):
            t = tab.setdefault(key, [0, 0, 0, None])
            t[0 if ok is False else 1 if ok else 2] += 1
            if ok:
                t[3] = json.dumps(e)[:200]
    for key, (rej, acc, err, ex) in sorted(tab.items()):
        if acc or err:
            print(f"{'/'.join(key)}: rejected {rej}, accepted {acc}, no verdict {err}  {ex or ''}")
    print("rejected", sum(t[0] for t in tab.values()), "of", len(jobs))
    shutil.rmtree(c.work)


if __name__ == "__main__":
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    if "models" in sys.argv:
        sys.exit(models())
    if "traces" in sys.argv:
        traces()
