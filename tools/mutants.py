#!/usr/bin/env python3
"""Mutation testing of the checks: mutants.py OUT.jsonl [WORKERS] [FILE-REGEX]

Makes small changes to the code (in copies under /tmp/mut, never in /repo), keeps those that compile and
pass the repository's tests, and looks for a check that catches each: first short random runs of the
relevant modes, then the relevant quick checks. Survivors are to be looked at by hand: each is either
equivalent (or outside of every property), or shows a gap.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue

OUT = sys.argv[1] if len(sys.argv) > 1 else ""
WORKERS = int(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2].isdigit() else 4
ONLY = sys.argv[3] if len(sys.argv) > 3 else "."
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut"

MODULE = {m: "PPTrace" for m in "L01 L03 L04 L05 L07 L08 L09 L13 X05".split()}
MODULE.update({"L02": "FocusTrace", "L06": "ValidateTrace", "L10": "CallTrace", "L11": "CallTrace", "L12": "WidthTrace",
               "L13P": "PaneTrace", "P08": "PlainTrace", "X01": "JsonTrace", "X02": "JsonTrace", "X03": "TreeTrace",
               "X04": "TermTrace", "X04P": "TermTrace", "X06": "ShownTrace", "X07": "StyleTrace"})
MODULE.update({f"P0{i}": "PaneTrace" for i in range(1, 8)})
JUDGE = {"L13P": "L13"}
PRINT = "L01 L02 L03 L05 L08 L09 L10 L11 L04 L07 L13 L12".split()
PANE = "P01 P02 P03 P04 P05 P06 P07 L13P".split()
FILES = [("src/pretty_print.rs", PRINT + ["P03"]), ("src/consolidated_notation.rs", ["L04"] + PRINT), ("src/valid_notation.rs", ["L06", "L08", "X06"]),
         ("src/notation.rs", ["X04", "X04P", "L04", "X06"]), ("src/notation_constructors.rs", ["X04", "X04P"]),
         ("src/pane/display_pane.rs", PANE), ("src/pane/divvy.rs", PANE), ("src/pane/pane_notation.rs", PANE),
         ("src/pane/printing_options.rs", PANE), ("src/pane/plain_text.rs", ["P08"]), ("src/oracle.rs", ["X05"]),
         ("src/doc_examples/json.rs", ["X02", "X01"]), ("src/doc_examples/tree.rs", ["X03", "X02", "X01"]),
         ("src/doc_examples/style.rs", ["X07", "X02", "X03", "L05"]), ("src/geometry.rs", ["P08"] + PANE + ["L13", "X06"]),
         ("src/infra.rs", ["L13", "L05"]), ("src/pretty_doc.rs", PRINT), ("src/lib.rs", [])]

SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
        (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"),
        (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.rev\(\)", ""), (r"saturating_sub", "wrapping_sub"),
        (r"saturating_add", "wrapping_add"), (r"\bif (?!let)([^{]+) \{$", r"if !(\1) {"), (r"\*", "/"), (r"!(?=[a-z(])", ""),
        (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\bleft\b", "right"), (r"\bright\b", "left"),
        (r"\.last\(", ".first("), (r"\.first\(", ".last("), (r"push_back", "push_front"), (r"push_front", "push_back"),
        (r"\bprev\b", "next"), (r"\bnext\b", "prev"), (r"\.rows?\b", lambda m: ".col" ), (r"\bwidth\b", "height"), (r"\bheight\b", "width"),
        (r"Vertical", "Horizontal"), (r"pop_back", "pop_front"), (r"pop_front", "pop_back"), (r"\bopt1\b", "opt2"), (r"\bopt2\b", "opt1"),
        (r"\bSome\(([a-z_.]+)\)", "None"), (r"\?;$", ".ok();"), (r"\.clone\(\)", ""), (r"\b2\b", "3"), (r"\bas u64\b", "as u8 as u64")]

def code_lines(path):
    txt = open(f"/repo/{path}").read().splitlines()
    for i, l in enumerate(txt):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            return
        if re.match(r"\s*(//|#\[|use |pub use|mod |pub mod|extern|type )", l) or not l.strip():
            continue
        yield i, l

def mutants():
    for path, props in FILES:
        if not re.search(ONLY, path):
            continue
        for i, l in code_lines(path):
            code = re.sub(r"//.*$", "", l)
            for a, b in SUBS:
                for m in re.finditer(a, code):
                    if code[:m.start()].count('"') % 2:
                        continue
                    new = code[:m.start()] + m.expand(b) + code[m.end():] if isinstance(b, str) else code[:m.start()] + b(m) + code[m.end():]
                    if new != code:
                        yield path, props, i, l, new
            # delete a statement
            if re.match(r"\s*[a-z_.*]+(\(|\.| [-+]?= ).*;$", code) and not re.match(r"\s*(let|return)\b", code):
                yield path, props, i, l, "    ();"
            if re.match(r"\s*(return|continue|break)\b.*;$", code):
                yield path, props, i, l, "    ();"

def sh(cmd, cwd, timeout, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, timeout=timeout, capture_output=True, text=True, errors="replace", env=env,
                           start_new_session=True)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

FAST = '''
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
P = sys.argv[1].split(",")
try:
    check.build()
except check.ToolError as t:
    print("TOOL", str(t)[-300:]); sys.exit(2)
M, J = %r, %r
for m in P:
    r = check.Run(m[:3], "quick")
    try:
        r.conf(m, M[m], 15 if m == "L09" else 150, chunks=2, judge=J.get(m), gen_timeout=60)
    except check.Violation as v:
        print("CAUGHT", m, v.why[:200]); sys.exit(1)
    except check.ToolError as t:
        print("TOOL", m, str(t)[-500:]); sys.exit(2)
'''

def prepare(w):
    d = f"{BASE}/{w}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/verif")
    for f in ("spec", "harness"):
        shutil.copytree(f"{HERE}/{f}", f"{d}/verif/{f}", symlinks=True)
    shutil.copy(f"{HERE}/KNOWN_FINDINGS", f"{d}/verif/")
    shutil.copytree("/repo", f"{d}/repo", ignore=shutil.ignore_patterns("target", ".git"))
    shutil.copy("/opt/vp/ws/Cargo.toml", f"{d}/repo/Cargo.toml")
    shutil.copy("/opt/vp/ws/Cargo.lock", f"{d}/repo/Cargo.lock")
    t = open(f"{HERE}/check.py").read().replace('REPO = "/repo"', f'REPO = "{d}/repo"')
    open(f"{d}/verif/check.py", "w").write(t)
    p = f"{d}/verif/harness/ppp/Cargo.toml"
    t = open(p).read().replace("/repo/src", f"{d}/repo/src")
    open(p, "w").write(t)
    open(f"{d}/verif/fast.py", "w").write(FAST % (MODULE, JUDGE))
    return d

lock = threading.Lock()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def work(w, q):
    d = prepare(w)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="0")
    while True:
        try:
            n, (path, props, i, old, new) = q.get_nowait()
        except queue.Empty:
            break
        p = f"{d}/repo/{path}"
        orig = open(f"/repo/{path}").read()
        lines = orig.splitlines()
        lines[i] = new
        open(p, "w").write("\n".join(lines) + "\n")
        rec = {"n": n, "file": path, "line": i + 1, "old": old.strip(), "new": new.strip()}
        rc, out = sh(["cargo", "check", "--lib", "--offline", "--features", "serialization"], f"{d}/repo", 45, env)
        if rc != 0:
            rec["r"] = "does not build"
        else:
            rc, out = sh(["cargo", "test", "--offline", "--lib", "--tests"], f"{d}/repo", 45, env)
            if rc != 0:
                rec["r"] = "killed by the tests"
            else:
                rc, out = sh(["python3", "fast.py", ",".join(props)], f"{d}/verif", 600)
                if rc == 1:
                    rec["r"] = "caught"; rec["by"] = out.strip()[-250:]
                elif rc == 0:
                    rec["r"] = "survived fast"
                else:
                    rec["r"] = "tool error"; rec["by"] = out[-600:]
                if rec["r"] != "caught":
                    for c in dict.fromkeys(x[:3] for x in props):
                        rc, out = sh(["python3", "check.py", c, "quick"], f"{d}/verif", 900)
                        if rc == 1:
                            rec["r"] = "caught by quick check"; rec["by"] = out.strip()[-250:]
                            break
                        if rc != 0:
                            rec["by"] = f"{c}: exit {rc} " + out[-400:]
                    else:
                        rec["r"] = "SURVIVED" + (" with tool error" if "by" in rec else "")
        open(p, "w").write(orig)
        with lock:
            with open(OUT, "a") as f:
                f.write(json.dumps(rec) + "\n")
    shutil.rmtree(d, ignore_errors=True)

def main():
    done = {json.loads(l)["n"] for l in open(OUT)} if os.path.exists(OUT) else set()
    q = queue.Queue()
    ms = list(mutants())
    if "--list" in sys.argv:
        print(len(ms)); return
    todo = list(enumerate(ms))
    random.Random(1).shuffle(todo)
    for n, m in todo:
        if n not in done:
            q.put((n, m))
    print(len(ms), "mutants", flush=True)
    ts = [threading.Thread(target=work, args=(w, q)) for w in range(WORKERS)]
    [t.start() for t in ts]
    [t.join() for t in ts]

if __name__ == "__main__":
    main()
