"""Shared parts of the checks: building, running the drivers, running TLC, evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


class Check:
    """One run of one check: scratch space, findings, counters, evidence"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", f"{pid}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assume = []
        self.level = "model_checking"
        self.seed = SEED
        self.trace_spec = "TraceApi"

    def left(self):
        return time.time() - self.t0

    def path(self, n):
        return os.path.join(self.work, n)

    def violation(self, text, replay_lines=None, replay_file=None):
        """Keeps a replay outside the scratch folder and reports it"""
        d = os.path.join(ROOT, "work", "replay")
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, f"{self.pid}-{len(self.violations)}.ndjson")
        if replay_file:
            shutil.copyfile(replay_file, out)
        else:
            with open(out, "w") as f:
                f.write(replay_lines if isinstance(replay_lines, str) else "\n".join(replay_lines or []))
        with open(out + ".txt", "w") as f:
            f.write(text + "\n")
        self.violations.append((text, out))
        print(f"VIOLATION property={self.pid} replay={out}", flush=True)
        print("   " + text.replace("\n", "\n   ")[:2000], flush=True)

    def finish(self):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0

    def add(self, k, n):
        self.cov[k] = self.cov.get(k, 0) + n


# ---- building -----------------------------------------------------------------------------------
def build(crate="harness", rustflags="", target=TARGET, features="", only="", profile=""):
    """only: the drivers needed; profile: "" checks what release builds take for granted, "rel" does not"""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never")
    if rustflags:
        env["RUSTFLAGS"] = rustflags
    t = time.time()
    cmd = ["cargo", "build", "--offline", "-q"] + (["--features", features] if features else [])
    cmd += (["--no-default-features", "--features", only] if only else []) + (["--profile", profile] if profile else [])
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, crate), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        err = [l for l in r.stdout.splitlines() if l.startswith("error")]
        raise ToolError("building %s failed:\n%s\n%s" % (crate, "\n".join(err[:5]), r.stdout[-3000:]))
    print(f"built {crate} in {time.time() - t:.0f} s", flush=True)
    return os.path.join(target, profile or "debug", crate)


# ---- TLC ----------------------------------------------------------------------------------------
class TlcResult:
    pass


def tlc(spec, cfg, env=None, workers=1, timeout=600, extra=(), mem="3g", cfg_text=None, jopts="", stack="64m"):
    """Runs TLC on SPEC/spec.tla. Returns its output and what it counted."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=os.path.join(ROOT, "work"))
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = f"-Xss{stack} -Xmx{mem} -XX:+UseParallelGC -XX:ParallelGCThreads=2 {jopts}"
    e.update(env or {})
    if cfg_text is not None:
        file = os.path.join(meta, "run.cfg")
        with open(file, "w") as f:
            f.write(cfg_text)
    else:
        file = os.path.join(SPEC, cfg)
    cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", file, *extra, os.path.join(SPEC, spec + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(meta, ignore_errors=True)
        raise ToolError(f"TLC on {spec} did not finish in {timeout} s")
    shutil.rmtree(meta, ignore_errors=True)
    # TLC running out of stack or memory says nothing about the trace or the model
    if "StackOverflowError" in p.stdout or "OutOfMemoryError" in p.stdout:
        if stack == "64m":
            return tlc(spec, cfg, env, workers, timeout, extra, "8g" if mem == "3g" else mem, cfg_text, jopts, "900m")
        raise ToolError(f"TLC on {spec} ran out of stack or memory:\n" + p.stdout[-1500:])
    r = TlcResult()
    r.out, r.rc, r.wall = p.stdout, p.returncode, time.time() - t
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
    r.generated = int(m[-1][0].replace(",", "")) if m else 0
    r.distinct = int(m[-1][1].replace(",", "")) if m else 0
    r.ok = "Model checking completed. No error has been found." in p.stdout
    r.sim_ok = p.returncode == 0
    r.violated = [x for x in re.findall(r"(?:Invariant|Action property|Temporal propert\w+|property) (\S+) (?:is|was|were) violated", p.stdout)]
    return r


# larger constants for `thorough`
DEEP = {
    "MC_btree1.cfg": {"MaxRuns": 9}, "MC_btree2.cfg": {"MaxRuns": 13}, "MC_btree3.cfg": {"MaxRuns": 5},
}


def with_constants(text, over):
    for k, v in over.items():
        text, n = re.subn(rf"^  {k} = .*$", f"  {k} = {v}", text, flags=re.M)
        assert n == 1, k
    return text


def model_check(c, runs):
    """The design itself: exhaustive runs of (spec, cfg). A failure here is a failure of the model."""
    def one(x):
        spec, cfg = x[0], x[1]
        over = {} if c.quick else DEEP.get(cfg, {})
        text = with_constants(open(os.path.join(SPEC, cfg)).read(), over)
        return x, tlc(spec, cfg, workers=8 if over else x[2] if len(x) > 2 else 4, timeout=800 if c.quick else 5400, mem="10g" if over else "6g", cfg_text=text)
    with ThreadPoolExecutor(3 if c.quick else 1) as ex:
        for x, r in ex.map(one, runs):
            if not r.ok:
                raise ToolError(f"the model {x[0]}/{x[1]} fails:\n" + r.out[-3000:])
            c.add("states", r.distinct)
            c.add("transitions", r.generated)
            c.cov.setdefault("models", []).append(f"{x[0]} with {x[1]}: {r.distinct} distinct states, {r.generated} transitions, {r.wall:.0f} s, exhaustive"
                                                  + (f" (with {DEEP[x[1]]})" if not c.quick and x[1] in DEEP else ""))
            print(f"model {x[0]}/{x[1]}: {r.distinct} states, {r.generated} transitions, {r.wall:.0f} s", flush=True)


def trace_cfg(he, aspects, spec="Trace"):
    base = open(os.path.join(SPEC, spec + ("" if he == "" else "He" if he else "Int") + ".cfg")).read()
    return re.sub(r"Aspects = \{.*\}", "Aspects = {" + ", ".join(f'"{a}"' for a in aspects) + "}", base)


def parse_verdict(r, n):
    """(True, n) accepted; (False, k) rejected at event k (1-based)"""
    m = re.search(r'<<"ACCEPTED", (\d+)>>', r.out)
    if m and r.ok:
        return True, int(m.group(1))
    m = re.search(r'<<\s*"REJECTED",\s*(\d+)', r.out)
    if m:
        return False, int(m.group(1))
    m = re.search(r"Invariant (\w+) is violated", r.out)
    if m:
        ls = re.findall(r"^/\\ l = (\d+)", r.out, re.M)
        return False, (int(ls[-1]) if ls else 1)
    if "The behavior up to this point is" in r.out:   # results of a form that the comparison cannot even be made
        ls = re.findall(r"^/\\ l = (\d+)", r.out, re.M)
        if ls:
            return False, int(ls[-1])
    raise ToolError("TLC gave no verdict:\n" + r.out[-3500:])


def validate(c, file, aspects, he, timeout=600):
    n = sum(1 for _ in open(file))
    if n == 0:
        return True, 0, None
    cfg = trace_cfg("" if c.trace_spec == "TraceCow" else he, aspects, {"TraceApi": "Trace"}.get(c.trace_spec, c.trace_spec))
    r = tlc(c.trace_spec, None, env={"TRACE": file}, workers=1, timeout=timeout, cfg_text=cfg)
    ok, k = parse_verdict(r, n)
    return ok, k, r


def split_sessions(file):
    cur, out = [], []
    if not os.path.exists(file):
        return out
    for l in open(file, errors="replace"):
        if '"op":"reset"' in l and cur:
            out.append(cur)
            cur = []
        if l.endswith("\n"):
            cur.append(l)
    if cur:
        out.append(cur)
    return out


def is_he(lines):
    return '"ix":"He"' in lines[0]


# ---- drivers ------------------------------------------------------------------------------------
def run_worker(c, binary, args, tag, stall=90, env=None):
    """Runs one driver process with a watchdog. Returns (prefix, how it ended)."""
    pre = c.path(tag)
    log = open(pre + ".log", "w")
    p = subprocess.Popen([binary] + args + ["--out", pre], stdout=log, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})))
    last, since = None, time.time()
    while True:
        try:
            p.wait(timeout=0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            st = open(pre + ".cur").read()
        except OSError:
            st = None
        if st != last:
            last, since = st, time.time()
        elif time.time() - since > stall:
            p.kill()
            p.wait()
            return pre, "hang"
    log.close()
    if p.returncode == 0 and os.path.exists(pre + ".sum"):
        return pre, "ok"
    return pre, f"exit {p.returncode}"


def drive(c, binary, prof, ms, sample_events, workers=NPROC, extra=()):
    """Random histories in parallel; returns summaries, sample sessions, suspicious sessions, crashes"""
    sums, samples, suspects, crashes = [], [], [], []

    def one(w):
        seed = c.seed * 1000 + w
        pre, how = run_worker(c, binary, ["run", "--prof", prof, "--seed", str(seed), "--ms", str(ms), "--sample-events", str(sample_events)] + list(extra), f"w{w}")
        return w, seed, pre, how
    with ThreadPoolExecutor(workers) as ex:
        for w, seed, pre, how in ex.map(one, range(workers)):
            if how == "ok":
                sums.append(json.load(open(pre + ".sum")))
            else:
                crashes.append((seed, pre, how))
            samples += split_sessions(pre + ".sample.ndjson")
            suspects += split_sessions(pre + ".suspect.ndjson")
    return sums, samples, suspects, crashes


def recover_crash(c, binary, prof, seed, pre, how):
    """A driver died or hung: get the history that did it as a trace that ends in a crash event"""
    try:
        inst, k, s = open(pre + ".cur").read().split()
    except (OSError, ValueError):
        return None, f"driver ended with {how} outside of any history"
    f = pre + ".crash.ndjson"
    try:
        p = subprocess.run([binary, "one", "--prof", prof, "--inst", inst, "--k", k, "--seed", str(seed), "--flush", f],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=100)
        again = p.returncode != 0
        how2 = f"exit {p.returncode}"
    except subprocess.TimeoutExpired:
        again, how2 = True, "hang"
    lines = split_sessions(f)
    lines = lines[0] if lines else ['{"op":"reset","par":"?","ix":"?","m":1,"j":true,"seed":0}\n']
    lines.append(json.dumps(dict(op="crash", how=how2 if again else how, inst=int(inst), k=int(k), seed=seed)) + "\n")
    return lines, f"the process {'hung' if 'hang' in how else 'died (' + how + ')'} in history --prof {prof} --inst {inst} --k {k} --seed {seed}" + ("" if again else " (not when repeated alone)")


def drive_small(c, binary, cmd, ms, sample_events, workers=NPROC, hang_ok=False):
    """As drive, for the drivers with one kind of history each (mock, serde, ...)"""
    sums, samples, suspects, crashes = [], [], [], []

    def one(w):
        pre, how = run_worker(c, binary, [cmd, "--seed", str(c.seed * 1000 + w), "--ms", str(ms), "--sample-events", str(sample_events)], f"{cmd}{w}")
        return w, pre, how
    with ThreadPoolExecutor(workers) as ex:
        for w, pre, how in ex.map(one, range(workers)):
            if how == "ok":
                sums.append(json.load(open(pre + ".sum")))
            else:
                crashes.append((pre, how))
            samples += split_sessions(pre + ".sample.ndjson")
            suspects += split_sessions(pre + ".suspect.ndjson")
    for pre, how in crashes:
        try:
            k, ln, s = open(pre + ".cur").read().split()
        except (OSError, ValueError):
            raise ToolError(f"driver {cmd} ended with {how} outside of any history\n" + open(pre + ".log").read()[-1500:])
        if how == "exit -9":
            raise ToolError(f"driver {cmd} was killed")
        if how == "hang" and hang_ok:
            c.add("hung", 1)
            continue
        c.violation(f"the process {'hung' if how == 'hang' else 'died (' + how + ')'} in history: harness {cmd} --k {k} --s {s} --len {ln} --out FILE",
                    [json.dumps(dict(cmd=cmd, k=int(k), s=int(s), len=int(ln), how=how)) + "\n"])
    return sums, samples, suspects


def generate(c, cfg, over, timeout=900):
    """Behaviours of the model for the code to follow: TLC writes them, one per line"""
    f = c.path(f"gen-{cfg}.ndjson")
    text = with_constants(open(os.path.join(SPEC, f"Gen_{cfg}.cfg")).read(), over)
    r = tlc("GenTree" if cfg.startswith("tree") else "Gen", None, env={"GEN": f}, workers=1, timeout=timeout, cfg_text=text, mem="8g")
    if not r.ok:
        raise ToolError(f"generating behaviours with Gen_{cfg} failed:\n" + r.out[-3000:])
    c.add("states", r.distinct)
    c.add("transitions", r.generated)
    return f, r


def drive_replay(c, binary, cfg, f, pars, sample_events, workers=NPROC):
    """The code follows generated behaviours"""
    sums, samples, suspects = [], [], []

    def one(w):
        args = ["replay", "--in", f, "--pars", pars, "--part", f"{w}/{workers}", "--seed", str(c.seed), "--sample-events", str(sample_events)]
        return run_worker(c, binary, args, f"replay-{cfg}-{w}")
    with ThreadPoolExecutor(workers) as ex:
        for pre, how in ex.map(one, range(workers)):
            if how == "ok":
                sums.append(json.load(open(pre + ".sum")))
            else:
                try:
                    k, x, s = open(pre + ".cur").read().split()
                except (OSError, ValueError):
                    raise ToolError(f"replaying {cfg} ended with {how} outside of any behaviour\n" + open(pre + ".log").read()[-1500:])
                if how == "exit -9":
                    raise ToolError("the replay was killed")
                line = next(l for i, l in enumerate(open(f)) if i == int(x))
                c.violation(f"the process {'hung' if how == 'hang' else 'died (' + how + ')'} while following this behaviour of the model (instantiation {k}):\n" + line[:1500], line)
            samples += split_sessions(pre + ".sample.ndjson")
            suspects += split_sessions(pre + ".suspect.ndjson")
    return sums, samples, suspects


def judge(c, samples, suspects, asp):
    """TLC judges the odd histories, then the sample"""
    bad = validate_sessions(c, suspects[:40], asp, "s")
    for s, k in bad[:3]:
        c.violation(explain(s, k), s)
    if not c.violations:
        for s, k in validate_sessions(c, samples, asp, "v")[:3]:
            c.violation(explain(s, k), s)


def explain(lines, k):
    ev = lines[min(k, len(lines)) - 1].strip()
    return f"{lines[0].strip()}\nevent {k} is not what the specification allows: {ev[:900]}"


def validate_sessions(c, sessions, aspects, name, timeout=600, par=NPROC):
    """Validates sessions in batches; returns the rejected ones as (session, event number)"""
    groups = {}
    for s in sessions:
        groups.setdefault(is_he(s), []).append(s)
    jobs = []
    for he, ss in groups.items():
        n = max(1, min(par, (sum(len(s) for s in ss) + 399) // 400))
        load = [[] for _ in range(n)]
        size = [0] * n
        for s in sorted(ss, key=len, reverse=True):
            i = size.index(min(size))
            load[i].append(s)
            size[i] += len(s)
        jobs += [(he, b) for b in load if b]
    bad = []

    def one(j):
        i, (he, batch) = j
        rej, nev, nses = [], 0, 0
        gen = dist = 0
        while batch:
            f = c.path(f"{name}{i}.ndjson")
            with open(f, "w") as o:
                for s in batch:
                    o.writelines(s)
            ok, k, r = validate(c, f, aspects, he, timeout)
            gen += r.generated
            dist += r.distinct
            if ok:
                nev += k
                nses += len(batch)
                break
            # find the session, set it aside, and go on with the rest
            at = 0
            for x, s in enumerate(batch):
                if k <= at + len(s):
                    rej.append((s, k - at))
                    nev += k
                    nses += x
                    batch = batch[x + 1:]
                    break
                at += len(s)
            if len(rej) >= 3:
                break
        return rej, nev, nses, gen, dist
    with ThreadPoolExecutor(par) as ex:
        for rej, nev, nses, gen, dist in ex.map(one, enumerate(jobs)):
            bad += rej
            c.add("events_validated", nev)
            c.add("traces_validated_against_impl", nses)
            c.add("states", dist)
            c.add("transitions", gen)
    return bad


def main(fn, argv):
    pid = argv[1] if len(argv) > 1 else "?"
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    c = Check(pid, tier)
    try:
        fn(c)
        rc = c.finish()
    except ToolError as e:
        print(f"ERROR in the check itself: {e}", flush=True)
        rc = 1 if c.violations else 2
        if c.violations:
            c.finish()
        else:
            shutil.rmtree(c.work, ignore_errors=True)
    print(f"{pid} {tier}: {'VIOLATED' if rc == 1 else 'held' if rc == 0 else 'no answer'} after {time.time() - c.t0:.0f} s", flush=True)
    sys.exit(rc)
