#!/usr/bin/env python3
"""Decides one property: check.py ID [quick|thorough]   (or: check.py --replay FILE, --setup)

Every check is made of stages:
  model   TLC explores a small model of the specification exhaustively (theorems of the spec)
  conf    the harness runs random cases on the real code and records what it did; TLC validates
          every recorded trace against the specification
  enum    TLC enumerates behaviours or inputs of a small model; the harness runs them all on the
          real code; TLC validates the recorded traces
Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
HARNESS = f"{HERE}/harness"
BIN = f"{HARNESS}/target/debug/ppp-verif"
SPEC = f"{HERE}/spec"

class ToolError(Exception):
    pass

class Violation(Exception):
    def __init__(self, why, replay=None):
        self.why, self.replay = why, replay

# ------------------------------------------------------------------------------------- building
def source_hash():
    h = hashlib.sha256()
    for base in (f"{REPO}/src", f"{HARNESS}/src"):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    for p in (f"{HARNESS}/Cargo.toml", f"{HARNESS}/Cargo.lock", f"{HARNESS}/ppp/Cargo.toml"):
        h.update(open(p, "rb").read())
    return h.hexdigest()

def build():
    os.makedirs(f"{HERE}/work", exist_ok=True)
    with open(f"{HERE}/work/build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp, want = f"{HARNESS}/target/.stamp", source_hash()
        if os.path.exists(BIN) and os.path.exists(stamp) and open(stamp).read() == want:
            return
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        env.pop("RUSTFLAGS", None)
        # modification times cannot be trusted in copies: force the two crates to be rebuilt
        if os.path.isdir(f"{HARNESS}/target"):
            subprocess.run(["cargo", "clean", "--offline", "-p", "partial-pretty-printer", "-p", "ppp-verif"],
                           cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline"], cwd=HARNESS, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("harness does not build:\n" + r.stderr[-4000:])
        with open(stamp, "w") as f:
            f.write(want)

# -------------------------------------------------------------------------------------- running
def tlc(module, work, env=None, workers=1, heap="3g", timeout=800, extra=(), cfg=None):
    """Run TLC; returns (exit code, output)."""
    meta = f"{work}/meta-{module}-{os.getpid()}-{time.monotonic_ns()}"
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, min(8, workers))}",
           "-Dfile.encoding=UTF-8", f"-Djava.io.tmpdir={meta}-tmp", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, *extra, "-config", f"{SPEC}/{cfg or module}.cfg", f"{SPEC}/{module}.tla"]
    e = dict(os.environ, LC_ALL="C.UTF-8")
    e.update(env or {})
    os.makedirs(meta + "-tmp", exist_ok=True)
    try:
        r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        if r.returncode == -9:   # memory was short: once more
            shutil.rmtree(meta, ignore_errors=True)
            time.sleep(5)
            r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} took longer than {timeout}s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(meta + "-tmp", ignore_errors=True)
    return r.returncode, r.stdout + r.stderr

def stats(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def replay_path(prop, case, why, module, env):
    d = f"{HERE}/work/replay"
    os.makedirs(d, exist_ok=True)
    p = f"{d}/{prop}-{hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]}.json"
    with open(p, "w") as f:
        json.dump({"property": prop, "why": why, "module": module, "env": env,
                   "run": f"python3 {HERE}/check.py --replay {p}", "case": case}, f, indent=1)
    return p

def run_harness(args, out, prop, timeout):
    """Run the harness; a crash or hang of the code under test is a violation, with the case it was on."""
    why = None
    try:
        r = subprocess.run([BIN, *args], capture_output=True, text=True, timeout=timeout, errors="replace")
        if r.returncode == 0:
            return
        if r.returncode in (1, 2):
            raise ToolError(f"harness failed: {' '.join(args)}\n{r.stderr[-2000:]}")
        why = f"the process died (exit status {r.returncode})"
    except subprocess.TimeoutExpired:
        why = "no result in time"
    prog = out + ".progress"
    case = json.loads(open(prog).read()) if os.path.exists(prog) and os.path.getsize(prog) else None
    if case is None:
        raise ToolError("harness died without a case: " + why)
    # is it really this case?
    one = out + ".one"
    with open(one, "w") as f:
        f.write(json.dumps(case) + "\n")
    try:
        r = subprocess.run([BIN, "exec", one, one + ".out"], capture_output=True, text=True, timeout=180, errors="replace")
        if r.returncode == 0:
            raise ToolError(f"harness: {why}, but the case {case.get('id')} alone runs")
        why = f"the process dies (exit status {r.returncode})"
    except subprocess.TimeoutExpired:
        why = "the call does not return within 180 s"
    raise Violation(why, replay_path(prop, case, why, "", {}))

def validate(prop, module, mode, trace, work, env=None, workers=1, heap="3g", timeout=800):
    """Validate a trace file; returns (states, distinct, cases)."""
    n = sum(1 for x in open(trace) if x.strip())
    if n == 0:
        return 0, 0, 0
    e = {"TRACE": trace, "MODE": mode}
    e.update(env or {})
    rc, out = tlc(module, work, env=e, workers=workers, heap=heap, timeout=timeout)
    g, d = stats(out)
    m = re.search(r'<<\s*"REJECT",\s*(\d+),\s*(-?\d+),\s*(.*?)>>\s*$', out, re.S | re.M)
    if m and "is violated" in out:
        tid = int(m.group(1))
        case = json.loads(open(trace).read().splitlines()[tid - 1])
        why = f"event {m.group(2)}: {' '.join(m.group(3).split())}"
        raise Violation(f"case {case.get('id')}, {why}", replay_path(prop, case, why, module, dict(env or {}, MODE=mode)))
    # a recorded value that the specification cannot even interpret, or a behaviour stuck before its end
    m = re.search(r"^Error: (Evaluating|Attempted|The first argument|The second argument|Deadlock reached|In evaluation|Cannot|The index|The exception)(.*?)behavior up to this point is", out, re.S | re.M)
    at = re.findall(r"^/\\ case = (\d+)\n/\\ event = (-?\d+)", out, re.M)
    if rc != 0 and m and at:
        case = json.loads(open(trace).read().splitlines()[int(at[-1][0]) - 1])
        why = f"event {at[-1][1]}: not a value or step the specification knows: {' '.join((m.group(1) + m.group(2)).split())[:300]}"
        raise Violation(f"case {case.get('id')}, {why}", replay_path(prop, case, why, module, dict(env or {}, MODE=mode)))
    if rc != 0 or "Model checking completed. No error has been found" not in out:
        raise ToolError(f"TLC on {module} ({trace}) failed, exit {rc}:\n{out[-3000:]}")
    return g, d, n

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = f"{HERE}/work/{prop}-{tier}-{os.getpid()}"
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts = [], []
        self.budget = 30 if tier == "quick" else 600

    def left(self):
        return self.budget - (time.time() - self.t0)

    def model(self, module, cfg=None, env=None, workers=8, heap="10g", timeout=840):
        rc, out = tlc(module, self.work, env=env, workers=workers, heap=heap, cfg=cfg, timeout=timeout)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError(f"model {cfg or module} failed, exit {rc}:\n{out[-3000:]}")
        g, d = stats(out)
        self.states += d
        self.transitions += g
        self.parts.append({"model": cfg or module, "states": d, "transitions": g, "exhaustive": True})

    def export(self, module, cfg=None, env=None, workers=8, heap="8g", timeout=840):
        """Explore a model exhaustively; returns the JSON values it prints with PrintT("EXPORT " ...)."""
        rc, out = tlc(module, self.work, env=env, workers=workers, heap=heap, cfg=cfg, timeout=timeout)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError(f"model {cfg or module} failed, exit {rc}:\n{re.sub('(?m)^.EXPORT .*$', '', out)[-3000:]}")
        g, d = stats(out)
        self.states += d
        self.transitions += g
        got = sorted({json.loads(x)[7:] for x in out.splitlines() if x.startswith('"EXPORT ')})
        self.parts.append({"model": cfg or module, "states": d, "transitions": g, "exhaustive": True, "exported": len(got)})
        if not got:
            raise ToolError(f"model {cfg or module} exported nothing")
        return [json.loads(x) for x in got]

    def write(self, name, cases):
        path = f"{self.work}/{name}.in"
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        return path

    def conf(self, mode, module, count, env=None, chunks=8, gen_timeout=400, until_budget=None, judge=None):
        """Random cases on the real code, validated. In the thorough tier, until the time is used."""
        rounds = 0
        tot = [0, 0, 0]
        share = until_budget if until_budget is not None else 1.0
        t_end = time.time() + max(0, self.left()) * share
        while True:
            def one(c):
                seed = (self.seed * 1000 + rounds) * 64 + c
                out = f"{self.work}/{mode}-{rounds}-{c}.ndjson"
                run_harness(["gen", mode, str(count), str(seed), out], out, self.prop, gen_timeout)
                r = validate(self.prop, module, judge or mode, out, self.work, env)
                if c == 0 and rounds == 0:
                    self.sample(out)
                os.remove(out)
                return r
            self.pool(one, range(chunks), tot)
            rounds += 1
            if self.tier == "quick" or time.time() + 20 > t_end:
                break
        self.states += tot[1]; self.transitions += tot[0]; self.traces += tot[2]
        self.parts.append({"conformance": mode, "spec": module, "cases": tot[2], "states": tot[1], "rounds": rounds})

    def pool(self, fn, items, tot):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(fn, i) for i in items]
            bad = None
            for f in fs:
                try:
                    r = f.result()
                    for i in range(3):
                        tot[i] += r[i]
                except Violation as v:
                    if bad is None or isinstance(bad, ToolError):
                        bad = v
                except ToolError as t:
                    if bad is None:
                        bad = t
            if bad is not None:
                raise bad

    def enum(self, label, mode, cases_file, module, env=None, chunks=8):
        """Run given cases (one JSON per line) on the real code and validate the traces."""
        lines = [x for x in open(cases_file) if x.strip()]
        tot = [0, 0, 0]
        def one(c):
            part = lines[c::chunks]
            if not part:
                return 0, 0, 0
            inp = f"{self.work}/{label}-{c}.in"
            with open(inp, "w") as f:
                f.writelines(part)
            out = f"{self.work}/{label}-{c}.ndjson"
            run_harness(["exec", inp, out], out, self.prop, 600)
            r = validate(self.prop, module, mode, out, self.work, env)
            if c == 0:
                self.sample(out)
            os.remove(out); os.remove(inp)
            return r
        self.pool(one, range(chunks), tot)
        self.states += tot[1]; self.transitions += tot[0]; self.traces += tot[2]
        self.parts.append({"enumerated": label, "spec": module, "cases": tot[2], "states": tot[1]})

    def sample(self, path):
        if len(self.samples) >= 3:
            return
        with open(path) as f:
            line = f.readline()
        if line.strip():
            v = json.loads(line)
            if len(v.get("ev", [])) > 4:
                v["ev"] = v["ev"][:4]
            if len(v.get("terms", [])) > 4:
                v["terms"] = v["terms"][:4]
            self.samples.append(v)

    def evidence(self, level, violations, extra=None):
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:2] or ["none"], "parts": self.parts}
        cov.update(extra or {})
        with open(f"{HERE}/evidence/{self.prop}.json", "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": ASSUME, "wall_s": round(time.time() - self.t0, 1), "violations": violations}, f, indent=1)

ASSUME = ["TLC 1.8 and the Rust toolchain are correct", "the harness records faithfully what the public API returned"]

# ----------------------------------------------------------------------------------- properties
def q(r, quick, thorough):
    return quick if r.tier == "quick" else thorough

CHECKS = {}
def check(f):
    CHECKS[f.__name__] = f
    return f

def small_docs(r, mode, families, ops):
    """All small documents of some families at several widths: TLC enumerates them, cases are built from them."""
    cases = []
    for fam, size, widths in families:
        got = r.export("MC_Printer", cfg="MC_SmallDocs", env={"FAM": fam, "SIZE": size, "WIDTHS": widths, "EXPORT": "1"})
        for i, d in enumerate(got):
            cases.append({"id": f"{mode}-{fam}{size}-{i}", "mode": mode, "W": d["W"], "root": "R" if mode == "L05" and i % 3 else "", "N": d["N"], "D": d["D"],
                          "dflt": i % 2 == 0, "serde": False, "ops": ops(fam, i)})
    return r.write(f"small-{mode}", cases)

WHOLE = [["open", 0, [], "start", 0], ["downall", 0], ["up", 0]]
def whole_ops(fam, i):
    return WHOLE + [["str"]]
def focus_requests(fam):
    return [[p, t, k] for p in ([], [0], [1]) for t, k in (("start", 0), ("end", 0))] + [[[0], "text", 1]] + \
        ([[[], "mark", 0]] if fam == "mark" else [])
def session_ops(fam, i):
    ops = list(WHOLE)
    for s, (p, t, k) in enumerate(focus_requests(fam), 1):
        ops.append(["open", s, p, t, k])
        order = (i + s) % 4
        if order == 0:
            ops += [["upall", s], ["downall", s]]
        elif order == 1:
            ops += [["downall", s], ["upall", s]]
        elif order == 2:
            ops += [["up", s], ["down", s]] * 3
        else:
            ops += [["down", s], ["down", s], ["up", s], ["up", s], ["downall", s], ["upall", s]]
    return ops
def open_whole_ops(fam, i):
    return WHOLE + [["open", s, p, t, k] for s, (p, t, k) in enumerate(focus_requests(fam), 1)]
def open_ops(fam, i):
    return [["open", s, p, t, k] for s, (p, t, k) in enumerate(focus_requests(fam))]

def fault_ops(fam, i):
    """The same requests with a fault at each of the document calls they make."""
    p, t, k = focus_requests(fam)[i % 7]
    script = [["open", 0, p, t, k], ["up", 0], ["downall", 0], ["upall", 0], ["str"]]
    return [op for f in range(0, 30) for op in [["run", f]] + script]
def width_docs(r, families):
    """All small documents of some families, each at several widths and with a focus at each."""
    with open(small_docs(r, "L12", [(fam, size, "one") for fam, size in families], lambda fam, i: [fam])) as f:
        cases = [json.loads(x) for x in f]
    for i, c in enumerate(cases):
        reqs = [["open", 0, *x] for x in focus_requests(c.pop("ops")[0])]
        c["Ws"] = list(range(9))
        c["opens"] = [reqs[(i + w) % len(reqs)] for w in c["Ws"]]
    return r.write("small-widths", cases)

def refinement(r, *runs):
    for fam, size, widths in runs:
        r.model("MC_Printer", env={"FAM": fam, "SIZE": size, "WIDTHS": widths, "EXPORT": "0"})

@check
def L01(r):
    fams = q(r, [("plain", "5", "some"), ("eol", "5", "some"), ("eol0", "5", "some")], [("eol0", "6", "all"), ("plain", "6", "some"), ("plain", "5", "all"), ("eol", "7", "some"), ("fold", "5", "some")])
    r.enum("small documents", "L01", small_docs(r, "L01", fams, whole_ops), "PPTrace")
    r.conf("L01", "PPTrace", q(r, 2000, 6000))
@check
def L02(r):
    refinement(r, *q(r, [("plain", "4", "some"), ("fold", "4", "some"), ("cond", "3", "one"), ("condfold", "3", "some"), ("eol1", "4", "some")],
                     [("plain", "6", "some"), ("plain", "5", "all"), ("fold", "6", "some"), ("eol", "7", "some"), ("cond", "4", "one"),
                      ("condfold", "5", "one"), ("miss", "5", "some"), ("style", "5", "some"), ("eol1", "6", "some")]))
    fams = q(r, [("plain", "4", "some"), ("fold", "4", "some"), ("eol", "4", "some")], [("plain", "5", "all"), ("fold", "6", "some"), ("eol", "5", "all"), ("mark", "5", "some")])
    r.enum("small documents, all sessions", "L02", small_docs(r, "L02", fams, session_ops), "FocusTrace")
    r.conf("L02", "FocusTrace", q(r, 1600, 4000))
@check
def L03(r):
    fams = q(r, [("plain", "4", "some"), ("mark", "5", "some"), ("fold", "4", "some")], [("plain", "6", "some"), ("mark", "7", "some"), ("fold", "6", "some")])
    r.enum("small documents, all focus requests", "L03", small_docs(r, "L03", fams, open_ops), "PPTrace")
    r.conf("L03", "PPTrace", q(r, 2000, 5000))
@check
def L04(r):
    fams = q(r, [("cond", "3", "one"), ("condfold", "4", "one")], [("cond", "4", "one"), ("cond", "3", "some"), ("condfold", "5", "one")])
    r.enum("small documents with conditions", "L04", small_docs(r, "L04", fams, session_ops), "PPTrace")
    r.conf("L04", "PPTrace", q(r, 2400, 5000))
@check
def L05(r):
    fams = q(r, [("style", "4", "some")], [("style", "5", "some"), ("style", "4", "all")])
    r.enum("small styled documents", "L05", small_docs(r, "L05", fams, open_whole_ops), "PPTrace")
    r.conf("L05", "PPTrace", q(r, 2400, 5000))
@check
def L06(r):
    terms = []
    for size, small in q(r, [("4", "0"), ("5", "1"), ("contexts", "0")], [("5", "0"), ("contexts", "0")]):
        terms += r.export("MC_Validate", env={"MAX": size, "SMALL": small, "EXPORT": "1"})
    batches = [{"id": f"L06-all-{i}", "mode": "L06", "terms": terms[i:i + 300]} for i in range(0, len(terms), 300)]
    r.enum("all small terms", "L06", r.write("terms", batches), "ValidateTrace")
    r.conf("L06", "ValidateTrace", q(r, 500, 1000))
@check
def L07(r):
    fams = q(r, [("eol1", "5", "some"), ("eol", "4", "some"), ("eol0", "5", "some")], [("eol0", "6", "some"), ("eol1", "7", "some"), ("eol", "5", "all")])
    r.enum("small single nodes and small documents", "L07", small_docs(r, "L07", fams, session_ops), "PPTrace")
    r.conf("L07", "PPTrace", q(r, 2400, 5000))
@check
def L08(r):
    fams = q(r, [("miss", "4", "some"), ("cond", "3", "one")], [("miss", "5", "some"), ("cond", "4", "one")])
    r.enum("small documents with mismatches", "L08", small_docs(r, "L08", fams, session_ops), "PPTrace")
    r.conf("L08", "PPTrace", q(r, 2400, 5000))
@check
def L09(r):
    fams = q(r, [("cond", "3", "one")], [("plain", "4", "one"), ("fold", "4", "one"), ("cond", "3", "some")])
    r.enum("small documents, a fault at each call", "L09", small_docs(r, "L09", fams, fault_ops), "PPTrace")
    r.conf("L09", "PPTrace", q(r, 160, 300))

@check
def L10(r):
    fams = q(r, [("cond", "3", "one"), ("condfold", "4", "one"), ("style", "4", "one")], [("cond", "4", "one"), ("condfold", "5", "one"), ("style", "5", "one"), ("miss", "4", "some")])
    r.enum("small documents with conditions", "L10", small_docs(r, "L10", fams, session_ops), "CallTrace")
    r.conf("L10", "CallTrace", q(r, 2000, 4000))
@check
def L11(r):
    fams = q(r, [("plain", "4", "some"), ("cond", "3", "one")], [("plain", "5", "some"), ("cond", "4", "one"), ("fold", "5", "some")])
    r.enum("small documents, all sessions", "L11", small_docs(r, "L11", fams, session_ops), "CallTrace")
    refinement(r, *q(r, [("plain", "4", "some")], [("plain", "6", "some"), ("fold", "5", "some")]))
    r.conf("L11", "CallTrace", q(r, 1200, 3000))
@check
def L12(r):
    for fam, size in q(r, [("plain", "5"), ("fold", "4")], [("plain", "6"), ("fold", "6"), ("eol", "7")]):
        r.model("MC_Widths", env={"FAM": fam, "SIZE": size})
    r.enum("small documents", "L12", width_docs(r, q(r, [("plain", "5"), ("fold", "4")], [("plain", "6"), ("fold", "6"), ("condfold", "4")])), "WidthTrace")
    r.conf("L12", "WidthTrace", q(r, 3000, 6000))
@check
def L13(r):
    r.conf("L13", "PPTrace", q(r, 900, 5000), until_budget=0.6)
    r.conf("L13P", "PaneTrace", q(r, 500, 2000), judge="L13")

def pane_case(mode, i, case):
    c = dict(case, id=f"{mode}-{i}", mode=mode, dflt=i % 2 == 0, faults=[["none", 0]])
    return json.loads(json.dumps(c, ensure_ascii=False).replace("`", "\u4e2d"))   # ` stands for a wide character in models

def divisions(r):
    """All small divisions, along both directions, as pane layouts of fills (and plain documents where dynamic)."""
    cases = []
    for i, d in enumerate(r.export("MC_Divide", env={"BIG": q(r, "0", "1"), "EXPORT": "1"})):
        dirs = ["horz", "vert"] if r.tier == "thorough" or i % 2 == 0 else [["horz"], ["vert"]][(i // 2) % 2]
        for k in dirs:
            P, docs, subs = [], [], []
            for j, z in enumerate(d["sizes"]):
                if z["z"] == "dyn":
                    lines = ["dd"[:z["n"]]] if k == "horz" else ["x"] * z["n"]
                    N, last = [], 0
                    for t in lines:
                        N.append({"k": "lit", "s": t, "w": len(t)})
                        if last:
                            N += [{"k": "nl"}, {"k": "cat", "a": last, "b": len(N) + 1}]
                            N.append({"k": "cat", "a": len(N), "b": len(N) - 2})
                        last = len(N)
                    docs.append({"N": N, "D": [{"n": last, "nm": "1", "t": False, "s": "", "w": 0, "ch": [], "cs": [], "ns": "n1"}],
                                 "path": [], "tgt": "start", "pos": 0, "fh": 0, "fd": 64, "ws": "full", "wn": 0, "sf": False})
                    P.append({"k": "doc", "d": len(docs)})
                else:
                    P.append({"k": "fill", "ch": "ABCDEF"[j]})
                subs.append(dict(z, p=len(P)))
            P.append({"k": k, "s": subs})
            w, h = (d["avail"], 1) if k == "horz" else (1 + i % 2, d["avail"])
            cases.append(pane_case("P01", len(cases), {"w": w, "h": h, "hmax": False, "style": "W", "P": P, "p0": len(P), "docs": docs, "wide": []}))
    return r.write("divisions", cases)

def small_panes(r, mode, *kinds, faults=None):
    cases = []
    for kind in kinds:
        for c in r.export("MC_Panes", env={"KIND": kind, "BIG": q(r, "0", "1"), "EXPORT": "1"}):
            cases.append(pane_case(mode, len(cases), c))
            if faults:
                cases[-1]["faults"] = faults(len(cases), c)
            if kind == "bad":
                cases[-1]["exact"] = True
    return r.write("panes-" + "-".join(kinds), cases)

@check
def P01(r):
    r.enum("all small divisions", "P01", divisions(r), "PaneTrace")
    r.conf("P01", "PaneTrace", q(r, 2000, 6000))
@check
def P02(r):
    r.enum("all small pane layouts", "P02", small_panes(r, "P02", "trees", "dyn"), "PaneTrace")
    r.conf("P02", "PaneTrace", q(r, 1300, 4000))
@check
def P03(r):
    r.enum("all views of small documents", "P03", small_panes(r, "P03", "view"), "PaneTrace")
    r.conf("P03", "PaneTrace", q(r, 1500, 4000))
@check
def P04(r):
    r.enum("all small dynamic layouts", "P04", small_panes(r, "P04", "dyn", "trees"), "PaneTrace")
    r.conf("P04", "PaneTrace", q(r, 1300, 4000))
@check
def P05(r):
    r.enum("all views and dynamic layouts", "P05", small_panes(r, "P05", "view", "dyn"), "PaneTrace")
    r.conf("P05", "PaneTrace", q(r, 1500, 4000))
@check
def P06(r):
    r.enum("all small pane layouts", "P06", small_panes(r, "P06", "trees"), "PaneTrace")
    r.conf("P06", "PaneTrace", q(r, 1500, 4000))
@check
def P07(r):
    def faults(i, c):
        return [["none", 0], ["win", 1 + i % 23], ["doc", 1 + i % 7, 1]]
    r.enum("all small pane layouts, with faults", "P07", small_panes(r, "P07", "trees", faults=faults), "PaneTrace")
    r.enum("all views of documents with an unprintable line", "P07", small_panes(r, "P07", "bad"), "PaneTrace")
    r.conf("P07", "PaneTrace", q(r, 800, 2400))
@check
def P08(r):
    seqs = r.export("MC_PlainText", env={"BIG": q(r, "0", "1"), "EXPORT": "1"})
    cases = []
    for i, h in enumerate(seqs):
        ops = [["c", x["ch"].replace("`", "\u4e2d"), x["row"], x["col"], x["full"]] if x["k"] == "c" else ["f", x["row"], x["col"]] for x in h]
        cases.append({"id": f"P08-all-{i}", "mode": "P08", "ops": ops, "size": [i % 7, i % 5]})
    r.enum("all short display sequences", "P08", r.write("plain", cases), "PlainTrace")
    r.conf("P08", "PlainTrace", q(r, 1600, 4000))
@check
def X05(r):
    r.conf("X05", "PPTrace", q(r, 3000, 6000))

def small_json(r, mode, size):
    cases = []
    for i, j in enumerate(r.export("MC_Json", env={"SIZE": size, "EXPORT": "1"})):
        for x in j["V"]:
            x["raw"] = " ".join(w for w, _ in x["words"])
        # every width for the text; views from a sample of focuses
        ops = [["str"]]
        if mode == "X02":
            at, path = j["root"], []
            while j["V"][at - 1]["ch"] and len(path) < i % 4:
                x = j["V"][at - 1]
                n = (i // 4) % len(x["ch"])
                path.append(n + (x["k"] == "pair"))
                at = x["ch"][n]
            x, part = j["V"][at - 1], 0
            if x["k"] == "pair" and i % 3 == 0:
                part, path = -1, path + [0]
            elif x["words"] and i % 2:
                part = 1 + i // 2 % len(x["words"])
                path = path + [part - 1]
            ops = [["view", path, tgt, at, part, i // 5 % 2] for tgt in (["start", "text"], ["end", "mark"])[i // 2 % 2]]
        cases.append({"id": f"{mode}-all-{i}", "mode": mode, "W": j["W"], "V": j["V"], "root": j["root"], "rs": [], "ops": ops})
    return r.write("json", cases)

@check
def X01(r):
    r.enum("all small JSON documents", "X01", small_json(r, "X01", q(r, "4", "5")), "JsonTrace")
    r.conf("X01", "JsonTrace", q(r, 2000, 6000))
@check
def X02(r):
    r.enum("all small JSON documents", "X02", small_json(r, "X02", q(r, "4", "5")), "JsonTrace")
    r.conf("X02", "JsonTrace", q(r, 1400, 4000))
@check
def X03(r):
    seqs = r.export("MC_Tree", env={"DEPTH": q(r, "4", "5"), "EXPORT": "1"})
    cases = [{"id": f"X03-all-{i}", "mode": "X03", "threads": 2, "ops": s} for i, s in enumerate(seqs)]
    r.enum("all short sequences of node operations", "X03", r.write("nodes", cases), "TreeTrace")
    r.conf("X03", "TreeTrace", q(r, 800, 2000))
@check
def X04(r):
    es = r.export("MC_Terms", env={"SIZE": q(r, "4", "5"), "EXPORT": "1"})
    cases = [{"id": f"X04-all-{i}", "mode": "X04", "terms": es[i:i + 50]} for i in range(0, len(es), 50)]
    r.enum("all small expressions", "X04", r.write("terms", cases), "TermTrace")
    r.conf("X04", "TermTrace", q(r, 200, 600), until_budget=0.5)
    r.conf("X04P", "TermTrace", q(r, 400, 800))
@check
def X06(r):
    r.model("MC_Shown", env={"SIZE": q(r, "4", "5"), "EXPORT": "0"})
    es = r.export("MC_Terms", env={"SIZE": q(r, "4", "5"), "EXPORT": "1"})
    sym = {"empty": "ε", "nl": "↵", "arrow": "⇒"}
    xs = [{"x": "notation", "e": e} for e in es]
    cases = [{"id": f"X06-all-{i}", "mode": "X06", "sym": sym, "xs": xs[i:i + 50]} for i in range(0, len(xs), 50)]
    r.enum("all small notations", "X06", r.write("shown", cases), "ShownTrace")
    r.conf("X06", "ShownTrace", q(r, 300, 1000))
@check
def X07(r):
    ss = r.export("MC_BasicStyles", env={"DEPTH": q(r, "3", "4")})
    xs = [{"x": "combine", "ss": s} for s in ss]
    # as node styles, and as a root style around them
    flat = [{"x": "doc", "root": [], "nodes": [{"ns": x, "ls": [], "ov": []} for x in s]} for s in ss]
    rooted = [{"x": "doc", "root": [s[0]], "nodes": [{"ns": x, "ls": [], "ov": []} for x in s[1:]]} for s in ss if len(s) > 1]
    name = lambda x: ("bold_" if x["b"] else "") + x["c"]
    regions = [{"x": "doc", "root": [], "nodes": [{"ns": {"c": "white", "b": False}, "ls": [name(x) for x in s], "ov": []}]} for s in ss]
    xs += flat + rooted + regions
    cases = [{"id": f"X07-all-{i}", "mode": "X07", "xs": xs[i:i + 100]} for i in range(0, len(xs), 100)]
    r.enum("all short sequences of styles", "X07", r.write("styles", cases), "StyleTrace")
    r.conf("X07", "StyleTrace", q(r, 200, 800))

def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build()
        return 0
    if a and a[0] == "--replay":
        build()
        rec = json.load(open(a[1]))
        work = f"{HERE}/work/replay"
        inp = f"{work}/one.in"
        with open(inp, "w") as f:
            f.write(json.dumps(rec["case"]) + "\n")
        try:
            run_harness(["exec", inp, inp + ".out"], inp + ".out", rec["property"], 300)
            if rec["module"]:
                validate(rec["property"], rec["module"], rec["env"].get("MODE", ""), inp + ".out", work, rec["env"])
        except Violation as v:
            print(v.why)
            print(f"VIOLATION property={rec['property']} replay={a[1]}")
            return 1
        print("the replayed case is accepted")
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    r = Run(prop, tier)
    try:
        build()
        CHECKS[prop](r)
    except Violation as v:
        r.evidence(LEVEL.get(prop, "model_checking"), 1, {"violation": v.why})
        print(v.why)
        print(f"VIOLATION property={prop} replay={v.replay}")
        return 1
    except ToolError as t:
        print("TOOL ERROR: " + str(t), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    r.evidence(LEVEL.get(prop, "model_checking"), 0)
    for line in open(f"{HERE}/KNOWN_FINDINGS"):
        if line.startswith(f"known: property={prop} "):
            print("KNOWN-FINDING: " + line[len("known: "):].strip())
    print(f"{prop}: held on {r.traces} traces of the real code and {r.states} states ({time.time() - r.t0:.0f} s)")
    return 0

LEVEL = {}
NOTES = {}

if __name__ == "__main__":
    sys.exit(main())
