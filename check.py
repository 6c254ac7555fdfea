#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's working tree.

Exit 0: held on everything explored.  Exit 1: a line "VIOLATION property=<id> replay=<path>".
Anything else: the check itself could not run.
"""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 4)
VENV = "/opt/dwo-venv/bin"


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ----------------------------------------------------------------------------- building
MODES = {
    "fast": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1"],
}


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def build_cpp(mode):
    """Compile /repo's C++ sources (current working tree) together with the explorer."""
    inc = os.path.join(REPO, "dwave/optimization/include")
    src = glob.glob(os.path.join(REPO, "dwave/optimization/src/**/*.cpp"), recursive=True)
    har = glob.glob(os.path.join(VERIF, "cpp/*.cpp"))
    hdr = (glob.glob(os.path.join(inc, "**/*.hpp"), recursive=True) + glob.glob(os.path.join(VERIF, "cpp/*.hpp"))
           + glob.glob(os.path.join(REPO, "dwave/optimization/src/**/*.hpp"), recursive=True))
    out = os.path.join(BUILD, "cpp-" + mode)
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "mc")
    stamp = digest(src + har + hdr, mode)
    sf = os.path.join(out, "stamp")
    if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp:
        return exe
    flags = MODES[mode]

    def one(f):
        o = os.path.join(out, f.replace("/", "_") + ".o")
        fl = list(flags)
        if f in har and mode == "fast" and os.path.basename(f) != "main.cpp":
            fl[0] = "-O1"
        key = digest([f] + hdr, " ".join(fl))
        if os.path.exists(o) and os.path.exists(o + ".key") and open(o + ".key").read() == key:
            return o
        r = subprocess.run(["g++", "-std=c++20", "-DNDEBUG", *fl, "-I" + inc, "-I" + os.path.join(VERIF, "cpp"), "-c", f, "-o", o],
                           capture_output=True, text=True)
        if r.returncode and os.path.basename(f) == "custom_utils.cpp":  # only C19 needs it, and names internals the others do not
            sys.stderr.write("without %s:\n%s\n" % (f, r.stderr[-2000:]))
            return None
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (f, r.stderr[-4000:]))
        with open(o + ".key", "w") as k:
            k.write(key)
        return o

    first = {"mathematical.cpp": 0, "scenario_ops.cpp": 1, "main.cpp": 2, "model_decisions.cpp": 3, "indexing.cpp": 4}
    order = sorted(src + har, key=lambda f: (first.get(os.path.basename(f), 9), -os.path.getsize(f)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = [o for o in ex.map(one, order) if o]
    r = subprocess.run(["g++", *flags, "-o", exe, *objs], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("linking failed:\n" + r.stderr[-4000:])
    with open(sf, "w") as k:
        k.write(stamp)
    return exe


def build_py():
    """Build the Python package from /repo's working tree into a scratch prefix; returns its path."""
    files = subprocess.run(["git", "-C", REPO, "ls-files", "-co", "--exclude-standard", "dwave", "meson.build", "pyproject.toml", "subprojects",
                            "meson_options.txt"], capture_output=True, text=True).stdout.split("\n")
    files = [os.path.join(REPO, f) for f in files if f]
    files = [f for f in files if os.path.isfile(f)]
    if not files:
        files = [f for f in glob.glob(os.path.join(REPO, "dwave/**/*"), recursive=True) if os.path.isfile(f)]
    bdir, inst = os.path.join(BUILD, "py-build"), os.path.join(BUILD, "py-install")
    stamp = digest(files)
    sf = os.path.join(BUILD, "py-stamp")
    if os.path.exists(sf) and open(sf).read() == stamp and os.path.isdir(inst):
        return inst
    shutil.rmtree(inst, ignore_errors=True)
    env = dict(os.environ, PATH=VENV + ":" + os.environ["PATH"], CC="gcc", CXX="g++")

    def run(cmd):
        return subprocess.run(cmd, env=env, capture_output=True, text=True, cwd="/")

    setup = ["meson", "setup", bdir, REPO, "--wrap-mode=nodownload", "--prefix=" + inst, "-Dbuildtype=release", "-Doptimization=0",
             "-Dpython.platlibdir=" + inst, "-Dpython.purelibdir=" + inst, "-Dpython.bytecompile=-1", "-Dwerror=false", "-Dcpp_args=-D_GLIBCXX_ASSERTIONS"]
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        shutil.rmtree(bdir, ignore_errors=True)
        r = run(setup)
        if r.returncode:
            raise CheckError("meson setup failed:\n" + r.stdout[-3000:] + r.stderr[-1000:])
    r = run(["ninja", "-C", bdir])
    if r.returncode:
        raise CheckError("building the Python package failed:\n" + r.stdout[-4000:])
    r = run(["meson", "install", "-C", bdir, "--no-rebuild", "--quiet"])
    if r.returncode:
        raise CheckError("installing the Python package failed:\n" + r.stdout[-2000:] + r.stderr[-1000:])
    with open(sf, "w") as k:
        k.write(stamp)
    return inst


# ----------------------------------------------------------------------------- parts
class Result:
    def __init__(self):
        self.fails, self.samples, self.notes = [], [], []
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.detail = {}


def run_mc(res, prop, tier, name, args, mode="fast", budget=420):
    exe = build_cpp(mode)
    out = os.path.join(BUILD, "out-%s-%s.jsonl" % (prop, name))
    cmd = [exe, "--prop", prop, "--tier", tier, "--out", out, "--jobs", str(JOBS), "--budget", str(budget), *args]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", MALLOC_PERTURB_="165")
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode:
        raise CheckError("explorer failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    summ = None
    for line in open(out):
        d = json.loads(line)
        if d.get("fail"):
            d["replay_cmd"] = [exe, "--prop", prop, "--tier", tier, "--only", d["scenario"], "--history", d["history"]]
            res.fails.append(d)
        elif d.get("sample"):
            res.samples.append(d)
        elif d.get("summary"):
            summ = d
    if summ is None:
        raise CheckError("explorer wrote no summary")
    if not summ["scenarios"]:
        raise CheckError("explorer had nothing to explore")
    res.states += summ["states"]
    res.transitions += summ["transitions"]
    res.traces += summ["histories"]
    res.evaluations += summ["evaluations"]
    res.detail[name] = summ
    if summ["not_covered"]:
        res.notes.append("%d scenarios of %s not completed within the time budget" % (summ["not_covered"], name))


def run_py(res, prop, tier, module, budget=420):
    """Run a Python explorer (py/<module>.py) against a package freshly built from /repo."""
    inst = build_py()
    out = os.path.join(BUILD, "out-%s-%s.jsonl" % (prop, module))
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, PYTHONPATH=inst + ":" + os.path.join(VERIF, "py"), PYTHONDONTWRITEBYTECODE="1", VP_OUT=out, VP_JOBS=str(JOBS),
               VP_BUDGET=str(budget), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    if module != "damage":  # which makes huge allocations that are never touched
        env["MALLOC_PERTURB_"] = "165"
    cmd = [VENV + "/python", os.path.join(VERIF, "py", module + ".py"), prop, tier]
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=BUILD, timeout=budget + 400)
    except subprocess.TimeoutExpired:
        raise CheckError("python explorer did not finish")
    summ = None
    if os.path.exists(out):
        for line in open(out):
            d = json.loads(line)
            if d.get("fail"):
                d["replay_cmd"] = ["env", "PYTHONPATH=" + env["PYTHONPATH"], *cmd, "--case", d.get("case", "")]
                res.fails.append(d)
            elif d.get("sample"):
                res.samples.append(d)
            elif d.get("summary"):
                summ = d
    if r.returncode or summ is None:
        raise CheckError("python explorer failed (%d): %s\n%s" % (r.returncode, r.stdout[-1500:], r.stderr[-3000:]))
    res.states += summ["states"]
    res.transitions += summ["transitions"]
    res.traces += summ.get("traces", 0)
    res.evaluations += summ.get("evaluations", 0)
    res.detail[module] = summ
    if summ.get("not_covered"):
        res.notes.append("%s: %s not completed within the time budget" % (module, summ["not_covered"]))


from plan import PLAN  # noqa: E402  (what each property runs)


def known_findings(prop):
    out = []
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)$", line.rstrip("\n"))
        if m and m.group(1) == prop:
            out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    if a.setup:  # nothing to install; only see that the tools are there
        for tool in ("g++", VENV + "/python", VENV + "/meson"):
            if not shutil.which(tool):
                log("missing tool", tool)
                return 2
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    res = Result()
    try:
        for part in PLAN[prop][tier]:
            part = dict(part)
            kind = part.pop("kind")
            if kind == "mc":
                run_mc(res, prop, tier, **part)
            else:
                run_py(res, prop, tier, **part)
    except CheckError as e:
        log("ERROR:", e)
        return 2
    # a finding that is already recorded is reported as such; everything else is a violation
    new, seen_known = [], {}
    known = known_findings(prop)
    for f in res.fails:
        sig = " ".join(str(f.get(k, "")) for k in ("kind", "scenario", "rec", "case", "detail"))
        for rx, what in known:
            if rx.search(sig):
                seen_known[what] = f
                break
        else:
            new.append(f)
    for what in seen_known:
        log("KNOWN-FINDING: property=%s %s" % (prop, what))
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(old)
    paths = []
    for i, f in enumerate(new[:5]):
        p = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(p, "w") as fh:
            json.dump(f, fh, indent=1)
        paths.append(p)
    level = PLAN[prop].get("level", "model_checking")
    cov = {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces,
           "evaluations": res.evaluations, "samples": res.samples[:12] or [{"note": "no sample"}], "bounds": PLAN[prop]["bounds"],
           "exhaustive_within_bounds": not res.notes, "parts": res.detail}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": PLAN[prop].get("assumptions", []) + res.notes, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    log("%s %s: states=%d transitions=%d traces=%d evaluations=%d violations=%d known=%d wall=%.1fs" %
        (prop, tier, res.states, res.transitions, res.traces, res.evaluations, len(new), len(seen_known), ev["wall_s"]))
    for n in res.notes:
        log("note:", n)
    for f, p in zip(new, paths):
        log("  %s %s %s: %s [%s]" % (f.get("kind"), f.get("scenario", ""), f.get("rec", f.get("case", ""))[:200], f.get("detail", "")[:300], f.get("history", "")[:120]))
        log("VIOLATION property=%s replay=%s" % (prop, p))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
