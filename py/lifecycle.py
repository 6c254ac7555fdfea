"""C10: every sequence of state and lock operations up to a depth on small models, against a shadow of what is set where."""
import itertools

import numpy as np

import runner
from dwave.optimization import Model
from dwave.optimization import mathematical as dm

REFUSAL = (ValueError, TypeError, IndexError, RuntimeError)


class D:
    """A decision variable: two values, a value it must refuse, and the arrays it shows for a value."""

    def __init__(self, sym, vals, bad, arrays=None):
        self.sym, self.vals, self.bad, self.arrays = sym, vals, bad, arrays or (lambda v: [np.asarray(v, float)])


class ModelA:
    """A fixed-size integer, a set of varying size, and things computed from one, from the other and from both."""

    def __init__(self):
        self.m = m = Model()
        c = m.constant([1, 2])
        x = m.integer((2,), lower_bound=-1, upper_bound=3)
        y = x + c
        s = m.set(3)
        self.decs = [D(x, ([3, 0], [-1, 2]), [4, 0]), D(s, ([1], [0, 2]), [1, 1])]
        g = s * m.constant(3)
        t = y.sum()
        u = g.sum()
        w = t + u
        self.derived = [(y, lambda v: v[0][0] + [1, 2]), (g, lambda v: v[1][0] * 3), (t, lambda v: np.sum(v[0][0]) + 3), (u, lambda v: 3 * np.sum(v[1][0])),
                        (w, lambda v: np.sum(v[0][0]) + 3 + 3 * np.sum(v[1][0])), (c, lambda v: np.array([1.0, 2.0]))]
        m.minimize(w)
        self.keep = (c, y, g)
        le = m.add_constraint(t <= u)
        self.derived.append((le, lambda v: np.float64(np.sum(v[0][0]) + 3 <= 3 * np.sum(v[1][0]))))


class ModelB:
    """Disjoint lists, whose arrays are themselves computed, next to a binary and a list."""

    def __init__(self):
        self.m = m = Model()
        d, (p, q) = m.disjoint_lists(primary_set_size=2, num_disjoint_lists=2)
        b = m.binary()
        self.decs = [D(d, ([[1], [0]], [[], [1, 0]]), [[0], [0]], lambda v: [np.asarray(x, float) for x in v]), D(b, (1, 0), 2)]
        t = q.sum()
        w = dm.where(b, t, p.size())
        self.derived = [(p, lambda v: v[0][0]), (q, lambda v: v[0][1]), (t, lambda v: np.sum(v[0][1])), (w, lambda v: np.sum(v[0][1]) if v[1][0] else np.float64(len(v[0][0]))),
                        (~b if hasattr(b, "__invert__") else dm.logical_not(b), lambda v: np.float64(v[1][0] == 0))]
        m.add_constraint(dm.logical(w))
        m.minimize(t)


class ModelC:
    """Disjoint bit-sets and a list, created after a constraint on a constant."""

    def __init__(self):
        self.m = m = Model()
        k = m.constant([1, 1])
        m.add_constraint(k[0] <= k[1])
        l = m.list(2)
        d, (p, q) = m.disjoint_bit_sets(primary_set_size=2, num_disjoint_sets=2)
        self.decs = [D(l, ([1, 0], [0, 1]), [0, 0]), D(d, ([[0, 1], [1, 0]], [[0, 0], [1, 1]]), [[1, 1], [1, 0]], lambda v: [np.asarray(x, float) for x in v])]
        tab = m.constant([5, 7])[l]
        r = tab * q
        self.derived = [(tab, lambda v: np.array([5.0, 7.0])[v[0][0].astype(int)]), (p, lambda v: v[1][0]), (q, lambda v: v[1][1]), (r, lambda v: np.array([5.0, 7.0])[v[0][0].astype(int)] * v[1][1]),
                        (r.sum(), lambda v: np.sum(np.array([5.0, 7.0])[v[0][0].astype(int)] * v[1][1]))]
        m.minimize(self.derived[-1][0])


KINDS = {"A": ModelA, "B": ModelB, "C": ModelC}
DEFAULTS = {}


def defaults(kind):
    """What each decision of a fresh model shows when it was never set."""
    if kind not in DEFAULTS:
        B = KINDS[kind]()
        with B.m.lock():
            B.m.states.resize(1)
            out = []
            for d in B.decs:
                arrs = [d.sym] if hasattr(d.sym, "state") else list(d.sym.iter_successors())[:2]
                out.append([a.state(0) for a in arrs])
        DEFAULTS[kind] = out
    return DEFAULTS[kind]


UNSET = None


class Run:
    """The model and its shadow."""

    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        B = KINDS[kind]()
        self.m, self.decs, self.derived = B.m, list(B.decs), list(B.derived)
        self.B = B
        self.locks, self.st, self.tmp = 0, [], 0
        self.dflt = list(defaults(kind))
        self.nsym = self.m.num_symbols()
        self.pending = None
        self.watching = False
        self.handed = []
        self.added = 0

    def fail(self, kind, detail):
        self.c.fail(kind, detail, kind)

    def expect_refused(self, what, fn, *a):
        self.c.evaluations += 1
        try:
            fn(*a)
        except REFUSAL:
            return
        self.fail("accepted", what)

    def settle(self):
        """A future result arrives when the states are next used."""
        if self.pending is not None:
            self.st = self.pending
            self.pending = None

    def arrays(self, i):
        return [self.decs[j].arrays(v) if v is not UNSET else self.dflt[j] for j, v in enumerate(self.st[i])]

    def touch(self, i, deps):
        """Reading makes unset decisions take their default."""
        for j in deps:
            if self.st[i][j] is UNSET:
                self.st[i][j] = ("default",)

    def shown(self, i):
        out = []
        for j, v in enumerate(self.st[i]):
            out.append(self.dflt[j] if v is UNSET or isinstance(v, tuple) else self.decs[j].arrays(v))
        return out

    def read(self, sym, ref, i, what):
        self.settle()
        n = len(self.st)
        self.c.evaluations += 1
        if not 0 <= i < n:
            try:
                sym.state(i)
                self.fail("no such index", "%s of state %d of %d is read" % (what, i, n))
            except (ValueError, IndexError):
                pass
            return
        if self.locks == 0 and sym.topological_index() is None:
            try:
                sym.state(i)
                self.fail("unlocked read", "%s is read although the model is not locked" % what)
            except TypeError:
                pass
            return
        got = sym.state(i)
        want = np.asarray(ref(self.shown(i)))
        if not self.watching:
            self.handed.append((got, got.copy()))
        else:  # counted from the end, one below that, and what was handed out is the reader's own
            if not np.array_equal(sym.state(i - n), got):
                self.fail("negative", "%s at state %d of %d differs from state %d" % (what, i, n, i - n))
            if type(sym).__name__ != "Constant":  # needs no state
                self.expect_refused("%s at state %d of %d" % (what, -n - 1, n), sym.state, -n - 1)
            mine = sym.state(i)
            if mine.flags.writeable and mine.size:
                mine.fill(77)
                if not np.array_equal(sym.state(i), got):
                    self.fail("alias", "writing into the array handed out for %s changes the state" % what)
        if got.shape != want.shape or not np.array_equal(got, want):
            self.fail("value", "%s at state %d is %s instead of %s with the decisions %s" % (what, i, got.tolist(), want.tolist(), self.st[i]))
        # whatever the symbol depends on now holds a state
        for j, d in enumerate(self.decs):
            if self.st[i][j] is UNSET and d.sym.has_state(i):
                self.st[i][j] = ("default",)

    def dec_ref(self, j):
        return lambda v: v[j][0]

    def do(self, op):
        m, k = self.m, op[0]
        self.c.transitions += 1
        if k == "set":
            _, j, i, w = op
            self.settle()
            d = self.decs[j]
            if i >= len(self.st):
                self.expect_refused("setting state %d of %d" % (i, len(self.st)), d.sym.set_state, i, d.vals[w])
            else:
                d.sym.set_state(i, d.vals[w])
                self.st[i][j] = d.vals[w]
        elif k == "bad":
            _, j = op
            self.settle()
            d = self.decs[j]
            self.expect_refused("%s for %s" % (d.bad, type(d.sym).__name__), d.sym.set_state, 0, d.bad)
            if self.st and not d.sym.has_state(0):
                self.st[0][j] = UNSET
        elif k == "reset":
            _, j, i = op
            self.settle()
            d = self.decs[j]
            if i >= len(self.st):
                self.expect_refused("resetting state %d of %d" % (i, len(self.st)), d.sym.reset_state, i)
            else:
                d.sym.reset_state(i)
                self.st[i][j] = UNSET
        elif k == "clear":
            self.settle()
            m.states.clear()
            self.st = []
        elif k == "resize":
            self.settle()
            m.states.resize(op[1])
            self.st = self.st[:op[1]] + [[UNSET] * len(self.decs) for _ in range(op[1] - len(self.st))]
        elif k == "future":
            self.settle()
            val = self.decs[0].vals[1]

            def hook(model, future, self=self):
                model.states.resize(2)
                self.decs[0].sym.set_state(1, val)

            m.states.from_future("answer", hook)
            self.pending = [[UNSET] * len(self.decs) for _ in range(2)]
            self.pending[1][0] = val
            self.st = []
        elif k == "lock":
            m.lock()
            self.locks += 1
        elif k == "unlock":
            self.settle() if self.locks == 1 else None
            m.unlock()
            self.locks = max(0, self.locks - 1)
        elif k == "add":
            d = self.decs[0]
            a = d.sym if hasattr(d.sym, "state") else next(d.sym.iter_successors())
            if self.locks:
                self.expect_refused("adding a symbol to a locked model", a.sum)
            else:
                s = a.sum()
                self.nsym += 1
                self.derived.append((s, lambda v: np.sum(v[0][0])))
        elif k == "tmp":
            a = self.derived[0][0]
            if self.locks:
                self.expect_refused("adding a symbol to a locked model", a.sum)
            else:
                a.sum()
                self.nsym += 1
                self.tmp += 1
        elif k == "adddec":
            if self.locks:
                self.expect_refused("adding a decision to a locked model", m.integer, 2)
            elif self.added < 2:
                self.added += 1
                x = m.integer((2,), lower_bound=0, upper_bound=1)
                self.nsym += 1
                self.decs.append(D(x, ([1, 0], [1, 1]), [2, 2]))
                self.dflt.append([np.zeros(2)])
                for row in self.st + (self.pending or []):
                    row.append(UNSET)
        elif k == "remove":
            if self.locks:
                self.expect_refused("removing symbols of a locked model", m.remove_unused_symbols)
            else:
                n = m.remove_unused_symbols()
                if n != self.tmp:
                    self.fail("removed", "%d symbols were removed instead of %d" % (n, self.tmp))
                self.nsym -= self.tmp
                self.tmp = 0
        elif k == "read":
            _, j, i = op
            s, ref = self.derived[j % len(self.derived)]
            self.read(s, ref, i, "derived symbol %d (%s)" % (j % len(self.derived), type(s).__name__))
        elif k == "readdec":
            _, j, i = op
            d = self.decs[j]
            if hasattr(d.sym, "state"):
                self.read(d.sym, self.dec_ref(j), i, "decision %d" % j)
        elif k == "init":
            self.settle()
            if self.locks:
                m.states.initialize()
                for row in self.st:
                    for j in range(len(row)):
                        if row[j] is UNSET:
                            row[j] = ("default",)
            else:
                self.expect_refused("initialising an unlocked model", m.states.initialize)
        elif k == "save":
            self.settle()
            with m.states.to_file():
                pass
        else:
            raise AssertionError(k)

    def observe(self):
        m = self.m
        self.settle()
        c = self.c
        c.check(m.is_locked() == (self.locks > 0), "locked", "is_locked is %s after %d locks" % (m.is_locked(), self.locks), "l")
        c.check(m.states.size() == len(self.st) == len(m.states), "size", "there are %d states instead of %d" % (m.states.size(), len(self.st)), "s")
        c.check(m.num_symbols() == self.nsym, "symbols", "there are %d symbols instead of %d" % (m.num_symbols(), self.nsym), "n")
        n = len(self.st)
        for i in range(n):
            got = [d.sym.has_state(i) for d in self.decs]
            want = [v is not UNSET for v in self.st[i]]
            c.check(got == want, "set", lambda: "state %d: decisions set %s instead of %s" % (i, got, want), "h")
            c.check([d.sym.has_state(i - n) for d in self.decs] == got, "set", "a negative index differs", "hn")
        for d in self.decs:
            self.expect_refused("asking for state %d of %d" % (n, n), d.sym.has_state, n)
            self.expect_refused("asking for state %d of %d" % (-n - 1, n), d.sym.has_state, -n - 1)
            self.expect_refused("setting state %d of %d" % (-n - 1, n), d.sym.set_state, -n - 1, d.vals[0])
            self.expect_refused("resetting state %d of %d" % (-n - 1, n), d.sym.reset_state, -n - 1)
        for j, (s, ref) in enumerate(self.derived[:2]):
            self.read(s, ref, n, "derived symbol %d" % j)
            if not self.locks:
                self.read(s, ref, 0, "derived symbol %d" % j)
        added = 0
        if not self.locks:
            m.lock()
            self.locks += 1
            added = 1
        self.watching = True
        for i in range(n):
            for j, (s, ref) in enumerate(self.derived):
                if not (j == 0 and i % 2):
                    self.read(s, ref, i, "derived symbol %d (%s)" % (j, type(s).__name__))
            for j, d in enumerate(self.decs):
                if hasattr(d.sym, "state"):
                    self.read(d.sym, self.dec_ref(j), i, "decision %d" % j)
            ok = all([bool(x.state(i)) for x in m.iter_constraints()])
            c.check(m.feasible(i) == ok == m.feasible(i - n), "feasible", "state %d: feasible is %s, the constraints %s" % (i, m.feasible(i), ok), "f")
            if m.objective is not None:
                s = m.objective
                ref = [r for t, r in self.derived if t.id() == s.id()]
                if ref:
                    self.read(s, ref[0], i, "the objective")
        self.watching = False
        self.read(self.derived[0][0], self.derived[0][1], n, "derived symbol 0")
        for got, was in self.handed:
            c.check(np.array_equal(got, was), "handed out", "an array read earlier changed from %s to %s" % (was.tolist(), got.tolist()), "ho")
        if added:
            m.unlock()

    def key(self):
        """What the implementation shows (without changing it)."""
        m = self.m
        n = len(self.st)
        rows = []
        for i in range(n):
            r = []
            for d in self.decs:
                r.append(d.sym.has_state(i))
            if self.locks:
                r += [s.has_state(i) for s, _ in self.derived]
            rows.append((tuple(r), repr(self.st[i])))
        return (min(self.locks, 2), tuple(rows), self.nsym, len(self.derived), len(self.decs), repr(self.pending), self.tmp)


def ops(kind, level):
    o = []
    for j in (0, 1):
        for i in (0, 1):
            o += [("set", j, i, 0), ("set", j, i, 1)] if level or i == 0 else [("set", j, i, 0)]
            o.append(("reset", j, i))
        o.append(("bad", j))
    o += [("clear",), ("resize", 0), ("resize", 1), ("resize", 2), ("resize", 3), ("lock",), ("unlock",), ("add",), ("tmp",), ("adddec",), ("remove",), ("init",), ("future",), ("save",)]
    nd = {"A": 5, "B": 4, "C": 5}[kind]
    for j in ((nd - 1, 1, 0) if level else (nd - 1, 1)):
        for i in (0, 1):
            o.append(("read", j, i))
    o += [("readdec", 0, 0), ("readdec", 1, 1), ("set", 2, 0, 1), ("readdec", 2, 0)]
    return o


STARTS = [(), (("resize", 2), ("lock",)), (("resize", 2), ("set", 0, 0, 0), ("set", 1, 0, 1), ("lock",), ("read", 3, 0)), (("resize", 2), ("set", 0, 0, 0), ("lock",), ("init",))]


def applicable(r, op):
    if op[0] in ("set", "bad", "reset", "readdec") and op[1] >= len(r.decs):
        return False
    return True


def run_seq(c, kind, seq):
    c.last = (kind, seq)
    c.mem[0:8] = (c.states + c.transitions).to_bytes(8, "little")
    r = Run(c, kind)
    for op in seq:
        if not applicable(r, op):
            return None
        r.do(op)
    return r


def dfs_case(kind, start, first, depth, level):
    def run(c):
        O = ops(kind, level)
        for d in range(0, depth):
            for rest in itertools.product(O, repeat=d):
                seq = start + (first,) + rest
                c.at((kind, seq)) if c.traces % 64 == 0 else None
                r = run_seq(c, kind, seq)
                if r is None:
                    continue
                r.observe()
                c.traces += 1
                c.states += 1
                if c.stop:
                    return
    return run


def bfs_case(kind, start, first, cap, level):
    """Merging situations that look alike (what is set and computed where, locks, symbols)."""
    def run(c):
        O = ops(kind, level)
        r = run_seq(c, kind, start + (first,))
        if r is None:
            return
        seen = {r.key()}
        frontier = [start + (first,)]
        while frontier and len(seen) < cap:
            nxt = []
            for seq in frontier:
                for op in O:
                    if op[0] in ("lock",) and sum(o[0] == "lock" for o in seq) - sum(o[0] == "unlock" for o in seq) >= 2:
                        continue
                    s2 = seq + (op,)
                    r = run_seq(c, kind, s2)
                    if r is None or len(r.derived) > 7 or r.tmp > 1:
                        continue
                    k = r.key()
                    r.observe()
                    c.traces += 1
                    if c.stop:
                        return
                    if k not in seen:
                        seen.add(k)
                        nxt.append(s2)
                        c.states += 1
                        if len(seen) >= cap:
                            break
                if len(seen) >= cap:
                    break
            frontier = nxt
    return run


def ladder_case(first, depth):
    """Sequences of operations on symbols with more paths between them than could be followed one by one."""
    def run(c):
        N = 60
        O = [("set", 0), ("set", 1), ("reset",), ("top",), ("mid",), ("clear",), ("cycle",), ("save",)]
        for rest in itertools.product(O, repeat=depth - 1):
            seq = (O[first],) + rest
            c.at("ladder of %d, %s" % (N, seq))
            m = Model()
            x = m.integer(lower_bound=-5, upper_bound=5)
            y = m.integer(lower_bound=-5, upper_bound=5)
            t, ref = [x, y], [lambda a, b: a, lambda a, b: b]
            for k in range(2, N):
                t.append(t[k - 1] - t[k - 2])
                ref.append(lambda a, b, k=k: [a, b, b - a, -a, -b, a - b][k % 6])
            m.minimize(t[-1])
            m.states.resize(1)
            m.lock()
            val = [UNSET, UNSET]
            for op in seq:
                c.transitions += 1
                if op[0] == "set":
                    v = 3 - (val[op[1]] or 0) - 2 * op[1]
                    (x, y)[op[1]].set_state(0, v)
                    val[op[1]] = v
                elif op[0] == "reset":
                    x.reset_state(0)
                    val[0] = UNSET
                elif op[0] in ("top", "mid"):
                    k = N - 1 if op[0] == "top" else N // 2
                    got, want = float(t[k].state(0)), ref[k](*[v or 0 for v in val])
                    c.check(got == want, "value", "symbol %d of the ladder is %s instead of %s with %s" % (k, got, want, val), "ladder")
                    val = [v or 0 for v in val]
                elif op[0] == "clear":
                    m.states.clear()
                    m.states.resize(1)
                    val = [UNSET, UNSET]
                elif op[0] == "cycle":
                    m.unlock()
                    m.lock()
                elif op[0] == "save":
                    m.states.to_file().close()
                c.check([x.has_state(0), y.has_state(0)] == [v is not UNSET for v in val], "set", "decisions set: %s" % val, "ladder")
            got = [float(s.state(0)) for s in t]
            val = [v or 0 for v in val]
            c.check(got == [r(*val) for r in ref], "value", "the ladder holds %s with %s" % (got, val), "ladder")
            c.states += 1
            c.traces += 1
            if c.stop:
                return
    return run


def make_cases(prop, tier):
    thorough = tier == "thorough"
    cases = []
    for kind in KINDS:
        for k, start in enumerate(STARTS):
            for n, op in enumerate(ops(kind, 1)):
                cases.append(("seq/%s/%d/%s" % (kind, k, "-".join(map(str, op))), dfs_case(kind, start, op, 4 if thorough else 3, 1)))
                if k == 0 or thorough:
                    cases.append(("reach/%s/%d/%s" % (kind, k, "-".join(map(str, op))), bfs_case(kind, start, op, 1500 if thorough else 60, 1)))
    for k in range(8):
        cases.append(("ladder/%d" % k, ladder_case(k, 4 if thorough else 3)))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
