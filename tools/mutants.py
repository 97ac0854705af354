#!/usr/bin/env python3
"""Development aid: applies small edits to copies of /repo and runs the checker.
   mutants.py [-k SUBSTR] [-p PROPS]: every file in tools/mut/*.mut; entries:
   === name | props expected to fire (comma separated) or 'none'
   @@ file
   old text
   ---
   new text
   A 'none' entry is behaviour preserving: all properties must stay quiet."""
import sys, os, re, glob, shutil, subprocess, tempfile, concurrent.futures as cf, argparse
ap = argparse.ArgumentParser(); ap.add_argument("-k", default=""); ap.add_argument("-p", default=""); ap.add_argument("-v", action="store_true"); ap.add_argument("--all", action="store_true"); ap.add_argument("-f", default="")
A = ap.parse_args()
here = os.path.dirname(os.path.abspath(__file__))
VF = os.environ.get("VF", "/tmp/vf")
ents = []
for f in sorted(glob.glob(here + "/mut/*.mut")):
    if A.f and A.f not in f: continue
    cur = None
    for blk in re.split(r"(?m)^=== ", open(f).read())[1:]:
        head, _, body = blk.partition("\n")
        name, _, props = head.partition("|")
        edits = []
        for e in re.split(r"(?m)^@@ ", body)[1:]:
            fn, _, rest = e.partition("\n")
            old, _, new = rest.partition("\n---\n")
            edits.append((fn.strip(), old.rstrip("\n"), new.rstrip("\n")))
        ents.append((name.strip(), props.strip(), edits))
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
def run(ent):
    name, props, edits = ent
    d = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        for fn, old, new in edits:
            p = d + "/repo/" + fn
            s = open(p).read()
            if old not in s: return name, props, "STALE: " + old[:60], ""
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run("go vet ./... >/dev/null 2>&1; go build -o /dev/null ./... && cd vancap && go build -o /dev/null ./...", shell=True, cwd=d + "/repo", env=env, capture_output=True, text=True)
        if b.returncode: return name, props, "NOBUILD", b.stderr
        os.makedirs(d + "/v")
        shutil.copy("/verif/known-findings.txt", d + "/v")
        want = A.p.split(",") if A.p else (["all"] if A.all or props == "none" else props.split(","))
        r = subprocess.run(["timeout", "800", VF] + want, env=dict(env, VF_REPO=d + "/repo", VF_VERIF=d + "/v"), capture_output=True, text=True)
        fired = sorted(set(re.findall(r"VIOLATION property=(\S+)", r.stdout)))
        if r.returncode not in (0, 1): return name, props, "CRASH", r.stdout + r.stderr
        if props == "none": st = "ok" if not fired else "FALSE ALARM " + ",".join(fired)
        else:
            w = [p for p in props.split(",")]
            st = "caught " + ",".join(fired) if any(p in fired for p in w) else ("MISSED" + (" (but " + ",".join(fired) + ")" if fired else ""))
        return name, props, st, r.stdout
    finally:
        shutil.rmtree(d)
sel = [e for e in ents if A.k in e[0] or A.k in e[1]]
bad = 0
with cf.ThreadPoolExecutor(6) as ex:
    for name, props, st, out in ex.map(run, sel):
        flag = not (st.startswith("caught") or st == "ok")
        bad += flag
        print(("** " if flag else "   ") + f"{name:40} [{props}] {st}", flush=True)
        if A.v or (flag and (st.startswith("FALSE") or st in ("NOBUILD", "CRASH"))):
            print("\n".join("      " + l for l in out.split("\n") if ": holds" not in l)[:3000])
print(len(sel), "run,", bad, "bad")
