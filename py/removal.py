"""C12 and C13: small model graphs with every choice of objective, constraints and held references.

C12: what remove_unused_symbols removes, and the order given by locking.   C13: the objective and the constraints of those models.
"""
import itertools

import numpy as np

import runner
from dwave.optimization import Model
from dwave.optimization import mathematical as dm
from dwave.optimization import symbols as ds

REFUSAL = (ValueError, TypeError, IndexError)


def programs(n, makers=("neg", "add", "le", "nary", "where", "iadd", "const", "and", "bin")):
    """Every program of n steps after two decisions: operands are earlier results."""
    def go(prog, k):
        if len(prog) == n:
            yield tuple(prog)
            return
        av = range(k)
        for mk in makers:
            if mk in ("const", "bin"):
                yield from go(prog + [(mk,)], k + 1)
            elif mk == "neg":
                for a in av:
                    yield from go(prog + [(mk, a)], k + 1)
            elif mk == "iadd":  # in place: changes an earlier n-ary sum, no new symbol unless it is in use
                for z in [i for i in av if i >= 2 and i - 2 < len(prog) and prog[i - 2][0] == "nary"]:
                    for a in av:
                        if a != z:
                            yield from go(prog + [(mk, z, a)], k + 1)
            else:
                for a, b in itertools.product(av, av):
                    if mk in ("add", "nary", "and") and a > b:
                        continue
                    yield from go(prog + [(mk, a, b)], k + 1)

    yield from go([], 2)


class Prog:
    """Runs a program; keeps for every result its value function and what it is computed from."""

    def __init__(self, prog, disjoint=False):
        self.m = m = Model()
        self.syms, self.fns, self.keys = [], [], []
        self.pred = {}          # id -> ids of the predecessors
        self.fixed = set()      # never removable
        self.decs = []
        if disjoint:
            d, (p, q) = m.disjoint_lists(primary_set_size=2, num_disjoint_lists=2)
            self.decs.append((d, [[[0, 1], []], [[1], [0]]]))
            self.fixed |= {d.id(), p.id(), q.id()}
            self.pred.update({d.id(): (), p.id(): (d.id(),), q.id(): (d.id(),)})
            s = q.sum()
            self.pred[s.id()] = (q.id(),)
            self._put(s, lambda v: float(sum(v[0][1])))
        else:
            x = m.integer(lower_bound=-1, upper_bound=2)
            self._dec(x, [2, -1])
        b = m.binary()
        self._dec(b, [1, 0])
        for step in prog:
            self._step(step)

    def _dec(self, x, vals):
        k = len(self.decs)
        self.decs.append((x, vals))
        self.fixed.add(x.id())
        self.pred[x.id()] = ()
        self._put(x, lambda v: float(v[k]))

    def _put(self, s, fn):
        self.syms.append(s)
        self.fns.append(fn)

    def _step(self, step):
        m, k, a = self.m, step[0], step[1:]
        S = [self.syms[i] for i in a]
        f = [self.fns[i] for i in a]
        ids = tuple(s.id() for s in S)
        if k == "bin":
            self._dec(m.binary(), [0, 1])
            return
        if k == "const":
            s = m.constant(1.5)
            self.pred[s.id()] = ()
            self._put(s, lambda v: 1.5)
            return
        if k == "neg":
            s, fn = -S[0], lambda v: -f[0](v)
        elif k == "add":
            s, fn = S[0] + S[1], lambda v: f[0](v) + f[1](v)
        elif k == "le":
            s, fn = S[0] <= S[1], lambda v: float(f[0](v) <= f[1](v))
        elif k == "and":
            s, fn = dm.logical_and(S[0], S[1]), lambda v: float(f[0](v) != 0 and f[1](v) != 0)
        elif k == "nary":
            s, fn = dm.add(S[0], S[1], S[0]), lambda v: 2 * f[0](v) + f[1](v)
            ids = (ids[0], ids[1], ids[0])
        elif k == "where":
            s, fn = dm.where(S[0], S[1], S[0]), lambda v: f[1](v) if f[0](v) else f[0](v)
            ids = (ids[0], ids[1], ids[0])
        elif k == "iadd":
            z = S[0]
            used = any(ids[0] in p for i, p in self.pred.items())
            s = z
            s += S[1]
            fn = lambda v: f[0](v) + f[1](v)
            if s.id() == z.id():
                # in place: the symbol itself changed, which nothing may have used
                self.pred[s.id()] += (ids[1],)
                for i, t in enumerate(self.syms):
                    if t is not None and t.id() == s.id():
                        self.fns[i] = fn
                self.inplace_used = used or getattr(self, "inplace_used", False)
                self._put(s, fn)
                return
        self.pred[s.id()] = ids
        self._put(s, fn)

    def ancestors(self, ids):
        out, todo = set(), list(ids)
        while todo:
            i = todo.pop()
            if i not in out:
                out.add(i)
                todo += self.pred[i]
        return out

    def assignments(self):
        return itertools.product(*[v for _, v in self.decs])

    def put(self, vals):
        for (d, _), v in zip(self.decs, vals):
            d.set_state(0, v)


def order_ok(c, P, when):
    """The order given by locking."""
    m = P.m
    with m.lock():
        syms = list(m.iter_symbols())
        for k, s in enumerate(syms):
            c.check(s.topological_index() == k, "index", "the %d-th symbol has index %s (%s)" % (k, s.topological_index(), when))
            for p in s.iter_predecessors():
                c.check(p.topological_index() < k, "order", "%s %d comes before its predecessor %s %d (%s)" % (type(s).__name__, k, type(p).__name__, p.topological_index(), when))
        decs = [d.id() for d, _ in P.decs]
        c.check([s.id() for s in syms[:len(decs)]] == decs and [s.id() for s in m.iter_decisions()] == decs, "decisions", "the decisions do not come first, in their order (%s)" % when)
        c.check(all(d.topological_index() == k for k, (d, _) in enumerate(P.decs)), "decisions", "wrong decision index (%s)" % when)


def graph_ok(c, P, alive, when):
    m = P.m
    got = {s.id(): tuple(p.id() for p in s.iter_predecessors()) for s in m.iter_symbols()}
    want = {i: P.pred[i] for i in alive}
    c.check(got == want, "symbols", lambda: "%s: symbols and predecessors are %s instead of %s" % (when, got, want))
    succ = {s.id(): sorted(t.id() for t in s.iter_successors()) for s in m.iter_symbols()}
    ws = {i: sorted(j for j in alive for p in P.pred[j] if p == i) for i in alive}
    c.check(succ == ws, "successors", lambda: "%s: successors are %s instead of %s" % (when, succ, ws))
    c.check(m.num_edges() == sum(len(p) for p in want.values()) and m.num_symbols() == m.num_nodes() == len(want) and m.num_decisions() == len(P.decs), "counts", "%s: wrong counts" % when)


def values_ok(c, P, held, obj, cons, when):
    m = P.m
    m.states.resize(1)
    with m.lock():
        for vals in P.assignments():
            P.put(vals)
            c.transitions += 1
            for i in held:
                got = P.syms[i].state(0)
                c.check(got.shape == () and float(got) == P.fns[i](vals), "value", lambda: "%s: symbol %d is %s instead of %s at %s" % (when, i, got, P.fns[i](vals), vals))
            if obj is not None:
                got = m.objective.state(0)
                c.check(float(got) == P.fns[obj](vals), "objective", lambda: "%s: the objective is %s instead of %s at %s" % (when, got, P.fns[obj](vals), vals))
            want = [P.fns[i](vals) for i in cons]
            got = [float(x.state(0)) for x in m.iter_constraints()]
            c.check(got == want, "constraints", lambda: "%s: the constraints are %s instead of %s at %s" % (when, got, want, vals))
            c.check(bool(m.feasible(0)) == all(want), "feasible", lambda: "%s: feasible is %s with the constraints %s at %s" % (when, m.feasible(0), want, vals))


def is_logical(prog, i):
    return i >= 2 and prog[i - 2][0] in ("le", "and", "bin") or i == 1


def not_logical(prog, i, disjoint=False):
    return i == 0 or i >= 2 and prog[i - 2][0] in ("neg", "add", "nary", "iadd", "const")


def removal_case(prog, disjoint):
    def run(c):
        n = len(prog) + 2
        logical = [i for i in range(n) if is_logical(prog, i)]
        consets = [()] + [(i,) for i in logical] + [(logical[0], logical[-1])]
        for obj in [None] + list(range(n)):
            for cons in consets:
                for held in itertools.chain([()], ((i,) for i in range(n)), [tuple(range(n))]):
                    c.last = (prog, "objective", obj, "constraints", cons, "held", held)
                    P = Prog(prog, disjoint)
                    m = P.m
                    if obj is not None:
                        m.minimize(P.syms[obj])
                    for i in cons:
                        m.add_constraint(P.syms[i])
                    alive = {s.id() for s in m.iter_symbols()}
                    c.check(alive == set(P.pred), "built", "the model has %d symbols instead of %d" % (len(alive), len(P.pred)))
                    keep = P.ancestors([P.syms[i].id() for i in ([obj] if obj is not None else []) + list(cons) + list(held)] + list(P.fixed))
                    hold = {i: P.syms[i] for i in held}
                    decs = {P.decs[k][0].id(): k for k in range(len(P.decs))}
                    # forget every other handle (the decisions are found again among the model's decisions)
                    P.decs = [(None, v) for _, v in P.decs]
                    P.syms = [hold.get(i) for i in range(n)]
                    removed = m.remove_unused_symbols()
                    c.states += 1
                    P.decs = [(d, P.decs[decs[d.id()]][1]) for d in m.iter_decisions()]
                    c.check(removed == len(alive) - len(keep), "count", "%d symbols are said to be removed, %d should be" % (removed, len(alive) - len(keep)))
                    graph_ok(c, P, keep, "after removal")
                    c.check(m.remove_unused_symbols() == 0, "again", "removing again removes more")
                    order_ok(c, P, "after removal")
                    values_ok(c, P, held, obj, cons, "after removal")
                    # the model can be extended afterwards
                    with m.lock():
                        pass
                    if held:
                        h = P.syms[held[0]]
                        h2 = -h
                        P.pred[h2.id()] = (h.id(),)
                        graph_ok(c, P, keep | {h2.id()}, "after adding a symbol")
                        order_ok(c, P, "after adding a symbol")
                        del h2
                        c.check(m.remove_unused_symbols() == 1, "added", "a symbol added later and dropped is not removed")
                    c.traces += 1
                    if c.stop:
                        return
    return run


def order_case(progs, disjoint):
    def run(c):
        for prog in progs:
            c.last = (prog,)
            P = Prog(prog, disjoint)
            c.check(not getattr(P, "inplace_used", False), "in place", "a symbol in use was changed in place")
            graph_ok(c, P, set(P.pred), "as built")
            order_ok(c, P, "as built")
            values_ok(c, P, range(len(P.syms)), None, (), "as built")
            order_ok(c, P, "again")
            c.states += 1
            c.traces += 1
            if c.stop:
                return
    return run


def register_case(prog, depth):
    """C13: every sequence of minimize/add_constraint/remove/lock cycles; the last objective and all constraints count."""
    def run(c):
        n = len(prog) + 2
        ops = [("min", i) for i in range(n)] + [("con", i) for i in range(n)] + [("remove",), ("lock",), ("more",)]
        for d in range(depth + 1):
            for seq in itertools.product(ops, repeat=d):
                c.last = (prog, seq)
                P = Prog(prog)
                m = P.m
                obj, cons = None, []
                c.check(m.objective is None and m.num_constraints() == 0, "fresh", "a fresh model has an objective or constraints")
                for op in seq:
                    if op[0] == "min":
                        m.minimize(P.syms[op[1]])
                        obj = op[1]
                    elif op[0] == "con":
                        if is_logical(prog, op[1]):
                            r = m.add_constraint(P.syms[op[1]])
                            cons.append(op[1])
                            c.check(r.id() == P.syms[op[1]].id(), "returned", "add_constraint returns another symbol")
                        else:
                            try:
                                m.add_constraint(P.syms[op[1]])
                                cons.append(op[1])
                                c.check(not not_logical(prog, op[1]), "accepted", "a constraint that is not logical is accepted")
                            except ValueError:
                                pass
                    elif op[0] == "remove":
                        m.remove_unused_symbols()
                    elif op[0] == "lock":
                        m.states.resize(1)
                        with m.lock():
                            P.put([v[0] for _, v in P.decs])
                            m.feasible(0)
                    else:
                        s = P.syms[0] + P.syms[1]
                        P.pred[s.id()] = (P.syms[0].id(), P.syms[1].id())
                        f0, f1 = P.fns[0], P.fns[1]
                        P.syms.append(s)
                        P.fns.append(lambda v, f0=f0, f1=f1: f0(v) + f1(v))
                c.check((m.objective is None) == (obj is None) and (obj is None or m.objective.id() == P.syms[obj].id()), "objective", "the objective is another symbol")
                c.check([x.id() for x in m.iter_constraints()] == [P.syms[i].id() for i in cons] and m.num_constraints() == len(cons), "constraints", "the constraints are other symbols")
                values_ok(c, P, (), obj, cons, "in the end")
                c.states += 1
                c.traces += 1
                if c.stop:
                    return
    return run


def refusal_case():
    def run(c):
        m = Model()
        x = m.integer((2,), lower_bound=0, upper_bound=3)
        b = m.binary((2,))
        e = m.constant(np.zeros((0,)))
        s = m.set(3)
        y = x.sum()
        m.minimize(y)
        k = m.add_constraint(b.all())
        for bad in (x, e, s, None, 3, "x", b):
            c.at("minimize %r" % (bad,))
            try:
                m.minimize(bad)
                c.fail("accepted", "minimize accepts %r" % (bad,))
            except (ValueError, TypeError):
                pass
            c.check(m.objective is not None and m.objective.id() == y.id(), "objective", "a refused minimize changes the objective")
            c.states += 1
        for bad in (b, e, s, None, 3, x, y, x <= x):
            c.at("add_constraint %r" % (bad,))
            try:
                m.add_constraint(bad)
                c.fail("accepted", "add_constraint accepts %r" % (bad,))
            except (ValueError, TypeError):
                pass
            c.check([q.id() for q in m.iter_constraints()] == [k.id()], "constraints", "a refused constraint is registered")
            c.states += 1
        o = Model()
        z, w = o.integer(), o.binary()
        for what, fn, arg in (("minimize", m.minimize, z), ("add_constraint", m.add_constraint, w)):
            c.at("%s of another model's symbol" % what)
            try:
                fn(arg)
                c.fail("foreign", "%s accepts a symbol of another model" % what)
            except (ValueError, TypeError):
                pass
    return run


def chunks(it, n):
    L = list(it)
    k = max(1, (len(L) + n - 1) // n)
    return [L[i:i + k] for i in range(0, len(L), k)]


def make_cases(prop, tier):
    thorough = tier == "thorough"
    cases = []
    if prop == "C12":
        for disjoint in (False, True):
            for d in range(0, (3 if thorough else 2) + 1):
                progs = list(programs(d))
                for k, part in enumerate(chunks(progs, 400 if d > 2 else 60)):
                    def run(c, part=part, disjoint=disjoint):
                        for p in part:
                            removal_case(p, disjoint)(c)
                            if c.stop:
                                return
                    cases.append(("removal/%s/%d/%d" % (disjoint, d, k), run))
            for d in range(0, (4 if thorough else 3) + 1):
                for k, part in enumerate(chunks(programs(d), 200 if d > 3 else 40)):
                    cases.append(("order/%s/%d/%d" % (disjoint, d, k), order_case(part, disjoint)))
    else:
        for d in range(0, 3):
            for k, prog in enumerate(programs(d, ("le", "add", "where", "iadd", "nary", "and") if d < 2 or thorough else ("le", "add"))):
                cases.append(("register/%d/%d" % (d, k), register_case(prog, (4 if d < 2 else 3) if thorough else (3 if d < 2 else 2))))
        cases.append(("refusal", refusal_case()))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
