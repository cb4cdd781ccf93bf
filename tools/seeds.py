#!/usr/bin/env python3
"""Run the checks on the planted bugs: seeds.py [-j N] [NAME[:PROP]...]

Each patch of /verif/seeded is applied to a copy of the repository (under /tmp/mut, never /repo), and the
quick check of its property (or of PROP) is run there.
"""
import os, re, subprocess, sys, threading, queue, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants as M
args = sys.argv[1:]
jobs = 3
if args[:1] == ["-j"]:
    jobs = int(args[1]); args = args[2:]
q = queue.Queue()
for a in args or sorted(os.listdir(M.HERE + "/seeded")):
    name, _, prop = a.partition(":")
    for d in sorted(os.listdir(M.HERE + "/seeded")):
        if d == name or d.startswith(name):
            q.put((d, prop or d[:3]))

def work(w):
    d = None
    while True:
        try:
            name, prop = q.get_nowait()
        except queue.Empty:
            break
        d = M.prepare(w)
        r = subprocess.run(["patch", "-p1", "-s", "-i", f"{M.HERE}/seeded/{name}/patch.diff"], cwd=f"{d}/repo", capture_output=True, text=True)
        if r.returncode:
            print(name, "DOES NOT APPLY", r.stdout, flush=True); continue
        t = time.time()
        rc, out = M.sh(["python3", "check.py", prop, "quick"], f"{d}/verif", 900)
        why = re.search(r"VIOLATION.*", out)
        m = re.search(r"^(?!VIOLATION).*(reject|expected|panic|event).*$", out, re.M)
        print(f"{name:36} {prop} exit {rc} {time.time() - t:4.0f}s  {(m.group(0) if m else out.strip()[-200:])[:160]}", flush=True)
    if d:
        import shutil; shutil.rmtree(d, ignore_errors=True)

ts = [threading.Thread(target=work, args=(f"s{i}",)) for i in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
