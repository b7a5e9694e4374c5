#!/usr/bin/env python3
"""Development tool, not a check: changes the crate in one place at a time (in scratch copies under /tmp/mut), keeps the
changes that compile and pass the existing tests, and reports which drivers find them odd.
  mutate.py OUT.jsonl [--files a,b] [--workers N] [--stride K --offset J] [--ms MS]"""
import hashlib, json, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
arg = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
OUT = sys.argv[1]
FILES = arg("--files", "src/tree/insert.rs,src/tree/node.rs,src/tree/mod.rs,src/tree/iter.rs,src/tree/slice_ref.rs,src/tree/cow.rs,src/tree/entry.rs,src/cursor.rs,src/range.rs,src/mock.rs,src/serde.rs,src/recycle.rs,src/param.rs,src/public_traits.rs").split(",")
WORKERS, STRIDE, OFFSET, MS = int(arg("--workers", "4")), int(arg("--stride", "1")), int(arg("--offset", "0")), arg("--ms", "2500")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PROFS = [f"C{n:02}" for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16)]
SMALL = '''    table! {
        NoFeatures u32, true, 1; NoFeatures u32, true, 2; NoFeatures u16, false, 2; NoFeatures u32, true, 16; NoFeatures He, true, 1; NoFeatures Sg, true, 2;
        AllowCow u32, true, 1; AllowCow He, true, 2; AllowCow u16, false, 1;
        AllowSliceRefs u32, true, 1; AllowSliceRefs He, true, 1; AllowSliceRefs u32, true, 3; AllowSliceRefs u16, false, 1;
    }
'''
SUBS = [(r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
        (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
        (r"\badd_left\b", "add_right"), (r"\badd_right\b", "add_left"), (r"\bsub_left\b", "sub_right"), (r"\bsub_right\b", "sub_left"),
        (r"\bSide::Left\b", "Side::Right"), (r"\bSide::Right\b", "Side::Left"), (r"\bIncluded\b", "Excluded"), (r"\bExcluded\b", "Included"),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bfst\b", "snd"), (r"\bsnd\b", "fst"),
        (r"\bif (?!let\b)[^{]+ \{$", "if true {"), (r"\bif (?!let\b)[^{]+ \{$", "if false {"), (r"!(?=[a-z])", ""), (r"\bSome\([a-z_.]+\)(?=[,;)])", "None"),
        (r"Ordering::(Acquire|Release)", "Ordering::Relaxed"), (r"\b0\b", "1"), (r"\bold_size\b", "new_size"), (r"\bnew_size\b", "old_size"), (r"\bhead\b", "tail"), (r"\btail\b", "head"),
        (r"\bfront\b", "back"), (r"\bback\b", "front"), (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()")]


def mutants():
    seen = set()
    for f in FILES:
        src = open("/repo/" + f).read().split("\n")
        end = next((i for i, l in enumerate(src) if l.startswith("#[cfg(") and "test" in l and re.match(r"(pub(\([a-z]+\))? )?mod \w+ \{", src[i + 1])), len(src))
        skip = 0
        for i in range(end):
            l = src[i]
            s = l.strip()
            if re.match(r"impl.*\b(Debug|Display)\b", s):
                skip = 1
            if skip:
                if l == "}":
                    skip = 0
                continue
            if not s or s.startswith(("//", "#", "use ", "pub use", "where", "///", "mod ")) or re.search(r"weak_assert|assert!|unreachable|panic!|debug_assert|todo!|expect\(", l):
                continue
            code = l.split(" // ")[0]
            cands = []
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    cands.append(code[:m.start()] + rep + code[m.end():])
            if re.match(r"^(\*?[a-z_][\w.\[\]()&*]*( = | \+= | -= |\(|\.)|return\b|break\b|continue\b|drop\()", s) and s.endswith(";") and not s.startswith("let "):
                if src[i - 1].strip().endswith((";", "{", "}")) or src[i - 1].strip().startswith("//"):
                    cands.append("")
            for c in cands:
                k = (f, i, c.strip())
                if c != code and k not in seen:
                    seen.add(k)
                    yield dict(file=f, line=i + 1, old=s, new=c.strip(), text=c)


def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(["prlimit", "--as=8000000000"] + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", env=dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **(env or {})))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, "timeout"


class Worker:
    def __init__(self, n):
        self.d = f"/tmp/mut/w{n}"
        if not os.path.exists(self.d):
            os.makedirs(self.d)
            sh(["git", "clone", "-q", "/repo", self.d + "/r"], "/", 60)
        else:
            sh(["git", "checkout", "-q", "--", "."], self.d + "/r", 60)
            sh(["git", "pull", "-q"], self.d + "/r", 60)
        shutil.rmtree(self.d + "/harness", ignore_errors=True)
        shutil.copytree(ROOT + "/harness", self.d + "/harness")
        p = self.d + "/harness/Cargo.toml"
        s = open(p).read().replace('path = "/repo"', f'path = "{self.d}/r"')
        open(p, "w").write(s)
        p = self.d + "/harness/src/main.rs"
        s = open(p).read()
        a, b = s.index("    table! {"), s.index("    }\n}", s.index("    table! {"))
        s = s[:a] + SMALL + s[b + 6:]
        # fewer instantiations of the other drivers too
        s = s.replace("NoFeatures u32, 2; AllowCow u32, 1; AllowCow u32, 2; AllowSliceRefs u32, 1; AllowSliceRefs u32, 2; AllowSliceRefs u32, 3; AllowSliceRefs Sg, 1; AllowCow Sg, 3 }", "AllowCow u32, 1; AllowSliceRefs u32, 1 }")
        s = s.replace("Cn, NoFeatures, true, 2;\n        Cn, AllowCow, false, 1; Cn, AllowSliceRefs, true, 3; u32, AllowCow, true, 3; Cn, NoFeatures, false, 3; He, AllowSliceRefs, false, 1; He, NoFeatures, true, 1 };", "};")
        s = s.replace(" AllowSliceRefs, AllowSliceRefs, true, 1, 1; u8, AllowCow, AllowCow, true, 2, 2; Sg, NoFeatures, NoFeatures, false, 5, 40 }", " AllowSliceRefs, AllowSliceRefs, true, 1, 1 }")
        open(p, "w").write(s)

    def run(self, m):
        r, f = self.d + "/r", self.d + "/r/" + m["file"]
        keep = open(f).read()
        ls = keep.split("\n")
        ls[m["line"] - 1] = m["text"]
        open(f, "w").write("\n".join(ls))
        try:
            rc, out = sh(["cargo", "test", "--workspace", "--no-run", "--offline", "-q", "--features", "serde,fuzz"], r, 400, dict(CARGO_BUILD_JOBS="2"))
            if rc:
                return "build", []
            log = self.d + "/test.log"
            rc, out = sh(["timeout", "60", "cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--features", "serde,fuzz", "--", "--test-threads", "2"], r, 90)
            open(log, "w").write(out)
            sh(["python3", "/opt/vp/results.py", self.d + "/o.json", "cargo:" + log], "/", 60)
            try:
                ok = STABLE <= set(json.load(open(self.d + "/o.json"))["passed"])
            except Exception:
                ok = False
            if not ok:
                return "tests", []
            rc, out = sh(["cargo", "build", "--offline", "-q"], self.d + "/harness", 600, dict(CARGO_TARGET_DIR=self.d + "/ht", CARGO_BUILD_JOBS="2"))
            if rc:
                return "harness does not build", [out[:200]]
            h = self.d + "/ht/debug/harness"
            hits = []
            pre = self.d + "/x"
            for p in PROFS:
                rc, _ = sh([h, "run", "--prof", p, "--seed", "7", "--ms", MS, "--sample-events", "1", "--out", pre], self.d, 40)
                n = json.load(open(pre + ".sum"))["suspects"] if rc == 0 else f"crash {rc}"
                if n:
                    hits.append(f"{p}:{n}")
                if sum("crash" in h for h in hits) >= 2:
                    return "found", hits
            if not hits and os.path.exists("/tmp/gen.content"):
                for g, pars in (("content", "NoFeatures,AllowCow,AllowSliceRefs"), ("cut", "NoFeatures,AllowCow,AllowSliceRefs"), ("shape", "AllowSliceRefs"), ("refs", "AllowSliceRefs"), ("cow", "AllowCow"), ("clones", "AllowCow")):
                    rc, _ = sh([h, "replay", "--in", f"/tmp/gen.{g}", "--pars", pars, "--part", "0/4", "--sample-events", "1", "--out", pre], self.d, 60)
                    n = json.load(open(pre + ".sum"))["suspects"] if rc == 0 else f"crash {rc}"
                    if n:
                        hits.append(f"replay {g}:{n}")
            for p in ("mock", "serde", "panics", "lies"):
                rc, _ = sh([h, p, "--seed", "7", "--ms", MS, "--sample-events", "1", "--out", pre], self.d, 40)
                n = json.load(open(pre + ".sum"))["suspects"] if rc == 0 else f"crash {rc}"
                if n:
                    hits.append(f"{p}:{n}")
            if m["file"].endswith("range.rs"):
                rc, _ = sh([h, "bounds", "--out", pre + ".t"], self.d, 40)
                h0 = hashlib.md5(open(pre + ".t", "rb").read()).hexdigest() if os.path.exists(pre + ".t") else "none"
                if h0 != BOUNDS:
                    hits.append("bounds")
            return ("found" if hits else "SURVIVED"), hits
        finally:
            open(f, "w").write(keep)


ms = [m for i, m in enumerate(mutants()) if i % STRIDE == OFFSET]
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        x = json.loads(l)
        done.add((x["file"], x["line"], x["new"]))
ms = [m for m in ms if (m["file"], m["line"], m["new"]) not in done]
print(len(ms), "changes", flush=True)
if "--list" in sys.argv:
    sys.exit(0)
ws = [Worker(n) for n in range(WORKERS)]
BOUNDS = ""
if any("range.rs" in f for f in FILES):
    w = ws[0]
    sh(["cargo", "build", "--offline", "-q"], w.d + "/harness", 900, dict(CARGO_TARGET_DIR=w.d + "/ht"))
    sh([w.d + "/ht/debug/harness", "bounds", "--out", w.d + "/b.t"], w.d, 60)
    BOUNDS = hashlib.md5(open(w.d + "/b.t", "rb").read()).hexdigest()
it, lock, out = iter(ms), threading.Lock(), open(OUT, "a")


def loop(w):
    while True:
        with lock:
            m = next(it, None)
        if m is None:
            return
        res, hits = w.run(m)
        with lock:
            out.write(json.dumps(dict(file=m["file"], line=m["line"], old=m["old"], new=m["new"], res=res, hits=hits)) + "\n")
            out.flush()


with ThreadPoolExecutor(WORKERS) as ex:
    list(ex.map(loop, ws))
