"""C09: every pattern of set and unset states, saved and loaded in every way, and states offered to models they do not match."""
import io
import itertools

import numpy as np

import lib
import runner
from dwave.optimization import Model
from saveload import load, save

REFUSAL = (ValueError, TypeError, IndexError, OverflowError)


def decs():
    return {"b": lib.binary((2,)), "b0": lib.binary(), "i": lib.integer((2,), -2, 2), "i2": lib.integer((1, 2), 0, 3), "l": lib.lst(3), "l0": lib.lst(0), "s": lib.st(3), "s1": lib.st(3, 1, 2),
            "dl": lib.dlists(2, 2), "dl1": lib.dlists(2, 1), "db": lib.dbits(2, 2), "db3": lib.dbits(1, 3)}


class Built:
    """A model over some decisions, with constants and other symbols in between, and things computed from them."""

    def __init__(self, names, extras=True):
        self.m = m = Model()
        self.decs, self.mains, self.arrays, self.derived = [], [], [], []
        D = decs()
        if extras:
            k = m.constant([2.0, 1.0])
            self.keep = k[0] + k[1]
        for n in names:
            d = D[n]
            main, arrs = d.build(m)
            self.decs.append(d)
            self.mains.append(main)
            self.arrays.append(arrs)
            if extras:
                self.derived += [a.sum() for a in arrs] + [(a * 2 + 1).max(initial=0) if False else (a * k[0]).sum() for a in arrs]
        if extras and self.derived:
            t = self.derived[0]
            for x in self.derived[1:]:
                t = t + x
            m.minimize(t)
            m.add_constraint(t <= k[0])


def put(B, idx, j, v):
    B.mains[j].set_state(idx, v)


def reads(B, i):
    out = [a.state(i).tolist() for arrs in B.arrays for a in arrs] + [d.state(i).tolist() for d in B.derived]
    if B.m.objective is not None:
        out.append(B.m.objective.state(i).tolist())
    return out + [bool(B.m.feasible(i))]




def pattern_case(names, nstates, src_locked, tgt_locked, prior, via, pats=None):
    def run(c):
        nd = len(names)
        for pat in pats or itertools.product((0, 1, 2), repeat=nd * nstates):
            if not pats and nd * nstates > 4 and sum(1 for p in pat if p == 2) > 1:
                continue
            c.at("%s states %d pattern %s" % (names, nstates, pat))
            A, B = Built(names), Built(names)
            A.m.states.resize(nstates)
            if src_locked:
                A.m.lock()
            want = []
            for i in range(nstates):
                row = []
                for j in range(nd):
                    p = pat[i * nd + j]
                    vals = A.decs[j].values
                    v = None if p == 0 else vals[(len(vals) - 1) // p if p == 1 else (len(vals) // 2 + i) % len(vals)]
                    if v is not None:
                        put(A, i, j, v)
                    row.append(v)
                want.append(row)
            if prior:  # the target holds other states (and its dependants are computed)
                B.m.states.resize(prior)
                with B.m.lock():
                    for i in range(prior):
                        for j in range(nd):
                            put(B, i, j, B.decs[j].values[0])
                        reads(B, i)
            keep = None
            if src_locked:
                for i in range(nstates):
                    if all(v is not None for v in want[i]) and sum(pat) % 2:
                        keep = (i, reads(A, i))
            before = [[x.has_state(i) for x in A.mains] for i in range(nstates)]
            if via == "states":
                data = A.m.states.to_file().read()
            elif via == "model":
                f = io.BytesIO()
                A.m.into_file(f, max_num_states=nstates)
                data = f.getvalue()
            else:
                f = io.BytesIO()
                A.m.states.into_file(f)
                data = f.getvalue()
            c.check([[x.has_state(i) for x in A.mains] for i in range(nstates)] == before, "save alters", "saving changed which states are set")
            if keep:
                c.check(reads(A, keep[0]) == keep[1], "save alters", "saving changed the states")
            for i, row in enumerate(want):
                with A.m.lock():
                    for j, v in enumerate(row):
                        if v is not None:
                            got = [a.state(i) for a in A.arrays[j]]
                            c.check(all(np.array_equal(g, w) for g, w in zip(got, A.decs[j].arrays(v))), "save alters", lambda: "after saving, %s holds %s" % (names[j], got))
            for target in ((B,) if via == "states" else (B, "new")):
                if target == "new":
                    if via != "model":
                        continue
                    T = Built(names, extras=False)
                    T.m = Model.from_file(io.BytesIO(data))
                    T.mains = list(T.m.iter_decisions())
                    with T.m.lock():
                        T.derived = []
                        T.arrays = [[x] if hasattr(x, "state") else list(x.iter_successors()) for x in T.mains]
                        for k, arrs in enumerate(T.arrays):  # the successors of a disjoint variable may come in any order
                            T.arrays[k] = arrs[: len(B.arrays[k])]
                else:
                    T = target
                    if tgt_locked:
                        T.m.lock()
                    T.m.states.from_file(io.BytesIO(data))
                c.states += 1
                c.check(T.m.states.size() == nstates, "count", lambda: "%d states were saved and %d loaded" % (nstates, T.m.states.size()))
                for i in range(nstates):
                    if target == "new":
                        T.m.lock()
                    got = [x.has_state(i) for x in T.mains]
                    c.check(got == [v is not None for v in want[i]], "set", lambda: "state %d: set %s, loaded %s" % (i, [v is not None for v in want[i]], got))
                    c.transitions += 1
                with T.m.lock():
                    for i in range(nstates):
                        for j, v in enumerate(want[i]):
                            if v is None:
                                continue
                            got = [a.state(i) for a in T.arrays[j]]
                            c.check(len(got) == len(A.arrays[j]) and all(np.array_equal(g, w) for g, w in zip(got, A.decs[j].arrays(v))), "value",
                                    lambda: "state %d of %s is %s instead of %s" % (i, names[j], [g.tolist() for g in got], v), names[j])
                        if T is B and all(v is not None for v in want[i]):
                            with A.m.lock():
                                a, b = reads(A, i), reads(T, i)
                            c.check(a == b, "derived", lambda: "state %d evaluates to %s instead of %s" % (i, b, a))
                c.traces += 1
            if c.stop:
                return
    return run


def values_case(name, locked):
    """Every value of the domain."""
    def run(c):
        d = decs()[name]
        vals = d.values
        A, B = Built([name]), Built([name])
        A.m.states.resize(len(vals))
        if locked:
            A.m.lock()
            B.m.lock()
        for i, v in enumerate(vals):
            put(A, i, 0, v)
        B.m.states.from_file(A.m.states.to_file())
        c.check(B.m.states.size() == len(vals), "count", "wrong number of states")
        with A.m.lock(), B.m.lock():
            for i, v in enumerate(vals):
                c.at("%s %s" % (name, v))
                c.check(all(np.array_equal(a.state(i), w) for a, w in zip(B.arrays[0], d.arrays(v))), "value", lambda: "%s was loaded as %s" % (v, [a.state(i).tolist() for a in B.arrays[0]]))
                c.check(reads(A, i) == reads(B, i), "derived", "derived values differ")
                c.states += 1
                c.transitions += 1
    return run


def max_states_case(nstates):
    def run(c):
        for k in range(-1, nstates + 2):
            for locked in (True, False):
                c.at("%d of %d states" % (k, nstates))
                A = Built(["i", "l"])
                A.m.states.resize(nstates)
                if locked:
                    A.m.lock()
                for i in range(nstates):
                    put(A, i, 0, A.decs[0].values[i])
                    put(A, i, 1, A.decs[1].values[i])
                f = io.BytesIO()
                A.m.into_file(f, max_num_states=k)
                m = Model.from_file(io.BytesIO(f.getvalue()))
                n = max(0, min(k, nstates))
                c.check(m.states.size() == n, "count", lambda: "max_num_states=%d of %d gives %d" % (k, nstates, m.states.size()))
                x, y = m.iter_decisions()
                for i in range(n):
                    c.check(np.array_equal(x.state(i), A.decs[0].values[i]) and np.array_equal(y.state(i), A.decs[1].values[i]), "value", "state %d differs" % i)
                c.states += 1
                c.transitions += 1
    return run


def variants():
    """Decision lists of which no two match."""
    m = {}
    for k, f in {"b2": lambda m: m.binary((2,)), "b3": lambda m: m.binary((3,)), "b12": lambda m: m.binary((1, 2)), "b": lambda m: m.binary(), "i2": lambda m: m.integer((2,), -2, 2),
                 "i2w": lambda m: m.integer((2,), -9, 9), "i2s": lambda m: m.integer((2,), 0, 1), "i21": lambda m: m.integer((2, 1), -2, 2), "l2": lambda m: m.list(2), "l3": lambda m: m.list(3), "s3": lambda m: m.set(3), "s2": lambda m: m.set(2),
                 "s31": lambda m: m.set(3, 1, 3), "s30": lambda m: m.set(3, 0, 2), "s33": lambda m: m.set(3, 3, 3), "dl22": lambda m: m.disjoint_lists(2, 2), "dl23": lambda m: m.disjoint_lists(2, 3), "dl32": lambda m: m.disjoint_lists(3, 2),
                 "db22": lambda m: m.disjoint_bit_sets(2, 2), "db23": lambda m: m.disjoint_bit_sets(2, 3), "db32": lambda m: m.disjoint_bit_sets(3, 2)}.items():
        m[k] = f
    return m


def mismatch_case(first, rest, locked):
    def run(c):
        V = variants()

        def make(names, const_first=False):
            m = Model()
            keep = [m.constant(5.0)] if const_first else []
            keep += [V[n](m) for n in names]
            a = next((x for x in m.iter_decisions()), None)
            if a is not None and hasattr(a, "sum"):
                m.minimize(a.sum())
            m.states.resize(2)
            return m

        for b in rest:
            for const_first in (False, True):
                c.at("states of %s into %s" % (first, b))
                A, B = make(first), make(b, const_first)
                with A.lock():
                    A.states.initialize()
                with B.lock():
                    B.states.initialize()
                    was = [(x.id(), [x.state(i).tolist() for i in range(2)]) for x in B.iter_symbols() if hasattr(x, "state")]
                data = A.states.to_file()
                if locked:
                    B.lock()
                try:
                    B.states.from_file(data)
                    ok = True
                except REFUSAL:
                    ok = False
                c.states += 1
                c.transitions += 1
                if ok != (first == b):
                    c.fail("mismatch" if ok else "refused", "states of a model over %s %s by one over %s" % (first, "are accepted" if ok else "are refused", b))
                with B.lock():
                    c.check(B.states.size() == 2, "target", "the target has %d states" % B.states.size())
                    if not ok:
                        now = [(x.id(), [x.state(i).tolist() for i in range(2)]) for x in B.iter_symbols() if hasattr(x, "state")]
                        c.check(now == was, "target", "the states of the target changed")
                    else:
                        B.states.initialize()
                        [x.state(i) for x in B.iter_symbols() if hasattr(x, "state") for i in range(2)]
                if c.stop:
                    return
    return run


MANY = [(["i"], 12, range(12)), (["s"], 12, range(12)), (["dl"], 11, range(11)), (["l"], 103, (0, 1, 9, 10, 11, 99, 100, 101, 102)), (["db", "l"], 12, range(24)),
        (["i"] * 12, 1, range(12)), (list(decs()), 2, range(24)), (["dl"] * 11, 1, range(11))]


def make_cases(prop, tier):
    thorough = tier == "thorough"
    cases = []
    D = list(decs())
    for n in D:
        for l in (True, False):
            cases.append(("values/%s/%s" % (n, l), values_case(n, l)))
    combos = [[n] for n in D] + [["b", "l"], ["dl", "i"], ["s", "db"], ["l", "dl1"]]
    if thorough:
        combos += [list(p) for p in itertools.permutations(["b", "i", "l", "s", "dl", "db"], 2)] + [["b", "i", "dl"], ["dl", "db", "s"]]
    for names in combos:
        for nst in ((1, 2, 3) if len(names) == 1 else (2,)):
            for sl, tl in itertools.product((True, False), repeat=2):
                for via, prior in (("states", 0), ("model", 1), ("into", 3)):
                    cases.append(("pattern/%s/%d/%s/%s/%s" % ("+".join(names), nst, sl, tl, via), pattern_case(names, nst, sl, tl, prior, via)))
    for names, nst, holes in MANY:  # more states, or more decisions, than one digit counts
        n = len(names) * nst
        full = [2] * n
        pats = [full, [0] * n, [2, 0] * (n // 2) + [2] * (n % 2)]
        for h in holes:
            pats.append([0 if k == h else 2 for k in range(n)])
            pats.append([1 if k == h else 0 for k in range(n)])
        for k, (via, prior) in enumerate((("states", 0), ("model", 1), ("into", nst + 1))):
            cases.append(("many/%s/%d/%s" % ("+".join(names), nst, via), pattern_case(names, nst, k != 1, k == 1, prior, via, pats)))
    for n in (0, 1, 3):
        cases.append(("max/%d" % n, max_states_case(n)))
    V = list(variants())
    lists = [[v] for v in V] + [[], ["b2", "l2"], ["l2", "b2"], ["b2", "b2"], ["l3", "s3"], ["i2", "i2"], ["i2", "i2w"], ["dl22", "b2"]]
    for a in lists:
        for l in (True, False):
            cases.append(("mismatch/%s/%s" % ("+".join(a), l), mismatch_case(a, lists, l)))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
