"""Runs cases of a Python explorer in forked workers; a case that kills or hangs its worker is a failure of that case.

    main(make_cases)     make_cases(prop, tier) -> list of (name, function(ctx))
"""
import json
import mmap
import os
import select
import signal
import sys
import time
import traceback

import numpy as np

HIST = 4000


class Ctx:
    def __init__(self, mem, name):
        self.mem, self.name = mem, name
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.fails, self.last, self.sigs = [], "", set()

    def at(self, what):
        """Note what is about to be tried (survives a crash)."""
        self.last = what
        b = str(what).encode()[:HIST - 9]
        self.mem[8:8 + len(b) + 1] = b + b"\0"
        self.mem[0:8] = (self.states + self.transitions).to_bytes(8, "little")

    def fail(self, kind, detail="", sig=None):
        sig = (kind, str(sig))
        if sig in self.sigs or len(self.fails) >= 3:
            return
        self.sigs.add(sig)
        self.fails.append({"fail": True, "kind": kind, "case": self.name, "detail": str(detail)[:600], "history": str(self.last)[:800]})

    def check(self, cond, kind, detail="", sig=None):
        self.evaluations += 1
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail, sig)
        return cond

    @property
    def stop(self):
        return len(self.fails) >= 3


def _run_case(ctx, fn):
    try:
        fn(ctx)
    except Exception:
        ctx.fail("exception", traceback.format_exc()[-600:])


def cpu_of(pid):
    """Processor time a worker has used, in seconds."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
    except OSError:
        return 0.0
    return (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")


def main(make_cases):
    prop, tier = sys.argv[1], sys.argv[2]
    np.seterr(all="ignore")
    cases = make_cases(prop, tier)
    if "--case" in sys.argv:
        want = sys.argv[sys.argv.index("--case") + 1]
        bad = 0
        for name, fn in cases:
            if name == want:
                ctx = Ctx(mmap.mmap(-1, HIST), name)
                _run_case(ctx, fn)
                for f in ctx.fails:
                    print(json.dumps(f, indent=1))
                bad += len(ctx.fails)
        sys.exit(1 if bad else 0)
    if "--list" in sys.argv:
        for name, _ in cases:
            print(name)
        return
    jobs = int(os.environ.get("VP_JOBS", "8"))
    budget = float(os.environ.get("VP_BUDGET", "400"))
    hang = float(os.environ.get("VP_HANG", "120"))
    out = open(os.environ.get("VP_OUT", "/dev/stdout"), "w")
    nxt = mmap.mmap(-1, 8)  # not needed across workers: the parent hands out the work
    del nxt
    tot = dict(states=0, transitions=0, traces=0, evaluations=0)
    pending = list(range(len(cases)))
    pending.reverse()
    workers = {}
    samples = nfail = done = 0
    t0 = time.time()
    every = max(1, len(cases) // 6)

    def spawn():
        r1, w1 = os.pipe()  # to the worker
        r2, w2 = os.pipe()  # from the worker
        mem = mmap.mmap(-1, HIST)
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for w in workers.values():
                os.close(w["in"])
                os.close(w["out"])
            fin = os.fdopen(r1, "r")
            fo = os.fdopen(w2, "w")
            for line in fin:
                i = int(line)
                ctx = Ctx(mem, cases[i][0])
                ctx.at("start")
                _run_case(ctx, cases[i][1])
                fo.write(json.dumps({"i": i, "states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces,
                                     "evaluations": ctx.evaluations, "fails": ctx.fails, "last": str(ctx.last)[:500]}) + "\n")
                fo.flush()
            os._exit(0)
        os.close(r1)
        os.close(w2)
        workers[r2] = {"pid": pid, "in": w1, "out": r2, "mem": mem, "case": None, "buf": b"", "seen": None, "at": time.time()}
        return workers[r2]

    def feed(w):
        if pending and time.time() - t0 < budget:
            w["case"] = pending.pop()
            w["at"], w["seen"] = time.time(), None
            try:
                os.write(w["in"], b"%d\n" % w["case"])
            except BrokenPipeError:
                pass
        else:
            w["case"] = None

    def record(d):
        nonlocal samples, nfail, done
        done += 1
        for k in tot:
            tot[k] += d[k]
        for f in d["fails"]:
            nfail += 1
            out.write(json.dumps(f) + "\n")
        if done % every == 0 and samples < 8:
            samples += 1
            out.write(json.dumps({"sample": True, "case": cases[d["i"]][0], "last": d["last"]}) + "\n")

    for _ in range(min(jobs, max(1, len(cases)))):
        spawn()
    for w in list(workers.values()):
        feed(w)
    cut = 0
    while any(w["case"] is not None for w in workers.values()):
        rd, _, _ = select.select(list(workers), [], [], 0.5)
        for fd in rd:
            w = workers[fd]
            data = os.read(fd, 1 << 20)
            if data:
                w["buf"] += data
                while b"\n" in w["buf"]:
                    line, w["buf"] = w["buf"].split(b"\n", 1)
                    record(json.loads(line))
                    feed(w)
            else:  # died
                _, status = os.waitpid(w["pid"], 0)
                del workers[fd]
                os.close(fd)
                os.close(w["in"])
                if w["case"] is not None:
                    h = w["mem"][8:].split(b"\0")[0].decode(errors="replace")
                    kind = w.get("killed") or "crash"
                    if kind == "budget":
                        cut += 1
                    else:
                        nfail += 1
                        done += 1
                        out.write(json.dumps({"fail": True, "kind": kind, "case": cases[w["case"]][0], "history": h,
                                              "detail": "the process %s (status %d)" % ("made no progress" if kind == "hang" else "died", status)}) + "\n")
                    feed(spawn())
        now = time.time()
        for w in workers.values():
            if w["case"] is None or w.get("killed"):
                continue
            seen = w["mem"][0:8] + w["mem"][8:200]
            if seen != w["seen"]:
                w["seen"], w["at"], w["cpu"] = seen, now, cpu_of(w["pid"])
            # (its own processor time counts, so that a busy machine is not mistaken for a hang; waiting for ever is one too)
            if now - w["at"] > hang and (now - w["at"] > 3 * hang or cpu_of(w["pid"]) - w["cpu"] > 0.8 * hang):
                w["killed"] = "hang"
            elif now - t0 > budget + 30:
                w["killed"] = "budget"
            if w.get("killed"):
                os.kill(w["pid"], signal.SIGKILL)
    for w in workers.values():
        os.close(w["in"])
    for w in workers.values():
        try:
            os.waitpid(w["pid"], 0)
        except ChildProcessError:
            pass
    out.write(json.dumps(dict(tot, summary=True, cases=done, not_covered=len(pending) + cut, failures=nfail, wall=round(time.time() - t0, 2))) + "\n")
    out.close()
