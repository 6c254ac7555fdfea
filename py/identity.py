"""C17: identity, equality, enumeration and lifetime of symbols.

equality     every pair of symbols of one model and of two models, over families of operators with varying parameters
programs     every pair of symbols of every pair of small programs
histories    every sequence of building, in-place operations, refused operations, dropping, re-obtaining and removing
iterating    every enumeration interleaved with every change of the model
lifetime     handles and states that outlive the model
"""
import gc
import io
import itertools

import numpy as np

import lib
import removal
import runner
from dwave.optimization import Model
from dwave.optimization import mathematical as dm
from dwave.optimization import symbols as ds

REFUSAL = (ValueError, TypeError, IndexError, RuntimeError)


def signature(model, dec, main, values):
    """For every symbol of the model its value at every assignment (None: it has no value of its own)."""
    out = []
    with model.lock():
        model.states.resize(1)
        syms = list(model.iter_symbols())
        out = [[] for _ in syms]
        for v in values:
            main.set_state(0, v)
            for k, s in enumerate(syms):
                try:
                    a = s.state(0)
                    out[k].append((a.shape, a.tobytes()))
                except (AttributeError, TypeError, NotImplementedError, ValueError):
                    out[k].append(None)
    model.states.resize(0)
    return [s.id() for s in syms], [tuple(o) for o in out]


def pairs_checks(c, a, b, ida, idb, va, vb, same_model, built_same=None):
    """The laws of shares_memory, id, maybe_equals and equals for one pair."""
    c.transitions += 1
    node = same_model and ida == idb
    c.check((a.id() == b.id()) == node, "id", lambda: "ids of %r and %r" % (a, b))
    c.check(bool(a.shares_memory(b)) == node, "shares_memory", lambda: "%r and %r" % (a, b))
    maybe, eq = a.maybe_equals(b), a.equals(b)
    c.check(maybe in (0, 1, 2) and (maybe != 0 or not eq) and (maybe != 2 or eq), "maybe", lambda: "maybe_equals is %s but equals is %s for %r and %r" % (maybe, eq, a, b))
    if node or built_same:
        c.check(eq and maybe != 0, "unequal", lambda: "%r and %r are built alike but not equal (maybe_equals %s)" % (a, b, maybe), type(a).__name__)
    if eq and not node:
        c.check(type(a) is type(b), "types", lambda: "%r equals %r" % (a, b))
        c.check(va == vb, "equal", lambda: "%r (%s) and %r (%s) are equal but evaluate differently: %s and %s" % (
            a, list(a.iter_predecessors()), b, list(b.iter_predecessors()), str(show(va, vb)), str(show(vb, va))), type(a).__name__)
    return eq


def show(u, v):
    for x, y in zip(u, v):
        if x != y:
            return None if x is None else (x[0], np.frombuffer(x[1]).tolist())


def family_case(dec, other, depth, only):
    def run(c):
        c.at("family %s" % dec.name)
        f = lib.Family(dec, depth, only)
        vals = dec.some(12)
        ids, sig = signature(f.model, dec, f.main, vals)
        syms = list(f.model.iter_symbols())
        pos = {i: k for k, i in enumerate(ids)}
        if other is None:
            handles = syms + [v.sym for v in f.vals]
            for k, a in enumerate(syms):
                c.at("symbol %d %r" % (k, a))
                ka = pos[a.id()]
                for b in handles:
                    kb = pos[b.id()]
                    pairs_checks(c, a, b, ka, kb, sig[ka], sig[kb], True)
                c.check(not a.equals(None) and not a.equals(3) and a.maybe_equals("x") == 0, "foreign", "%r equals something that is no symbol" % a)
                c.states += 1
                if c.stop:
                    return
        else:
            g = lib.Family(other, depth, only)
            gvals = vals if other.name == dec.name else other.some(12)
            gids, gsig = signature(g.model, other, g.main, gvals)
            gpos = {i: k for k, i in enumerate(gids)}
            gsyms = list(g.model.iter_symbols())
            alike = other.name == dec.name
            if alike:
                c.check([type(s) for s in syms] == [type(s) for s in gsyms], "rebuilt", "the same program builds other symbols")
            for a in syms:
                c.at("symbol %r" % a)
                ka = pos[a.id()]
                for b in gsyms:
                    kb = gpos[b.id()]
                    eq = pairs_checks(c, a, b, ka, kb, sig[ka] if alike else sig[ka][:1], gsig[kb] if alike else gsig[kb][:1], False, alike and ka == kb)
                    if not alike and eq:
                        # both must not depend on the decision
                        c.check(len(set(sig[ka])) <= 1 and len(set(gsig[kb])) <= 1, "dependent", lambda: "%r equals %r although the decisions differ" % (a, b), type(a).__name__)
                c.states += 1
                if c.stop:
                    return
        c.traces += 1
    return run


class Tree:
    """Structure of a program's symbols, by the position of the decision (which differ in kind) and the construction step."""

    def __init__(self, prog):
        self.P = removal.Prog(prog)
        self.sig = None

    def values(self):
        if self.sig is None:
            A = list(self.P.assignments())
            self.sig = [tuple(f(v) for v in A) for f in self.P.fns]
        return self.sig


def program_pairs_case(progs, others):
    """Both decisions differ in kind, so that a symbol of one model stands for the same quantity as one of the other."""
    def run(c):
        built = [Tree(q) for q in others]
        for p in progs:
            t = Tree(p)
            for q, u in zip(others, built):
                c.last = (p, q)
                va, vb = t.values(), u.values()
                n = min(len(p), len(q))
                common = next((k for k in range(n) if p[k] != q[k]), n) + 2
                # in-place steps change earlier symbols: compare structure only where there are none
                plain = not any(s[0] == "iadd" for s in p + q)
                for i, a in enumerate(t.P.syms):
                    for j, b in enumerate(u.P.syms):
                        c.transitions += 1
                        eq = a.equals(b)
                        if plain and i == j and i < common:
                            c.check(eq, "unequal", "the symbols %d are built alike but are not equal" % i)
                        if p == q and i == j:
                            c.check(eq, "unequal", "the symbols %d are built alike but are not equal" % i)
                        if eq:
                            c.check(va[i] == vb[j], "equal", lambda: "symbols %d and %d are equal but evaluate differently: %s and %s" % (i, j, va[i], vb[j]))
                        c.check(eq == b.equals(a), "symmetric", "equals is not symmetric for %d and %d" % (i, j))
                c.states += 1
                if c.stop:
                    return
            c.traces += 1
    return run


def same_model_case(progs):
    def run(c):
        for p in progs:
            t = Tree(p)
            c.last = (p,)
            v = t.values()
            S = t.P.syms
            again = {s.id(): s for s in t.P.m.iter_symbols()}
            c.check(len(again) == len(t.P.pred), "count", "the model enumerates %d symbols instead of %d" % (len(again), len(t.P.pred)))
            number = {}
            for s in S:
                number.setdefault(s.id(), len(number))
            for i, a in enumerate(S):
                r = again[a.id()]
                c.check(type(r) is type(a) and r.shares_memory(a) and r.equals(a) and a.equals(r) and r.maybe_equals(a) == 2, "obtained again", "symbol %d obtained again is another one" % i)
                for j, b in enumerate(S):
                    pairs_checks(c, a, b, number[a.id()], number[b.id()], v[i], v[j], True)
            c.states += 1
            c.traces += 1
            if c.stop:
                return
    return run


# histories -----------------------------------------------------------------

class World:
    """A model with what it must contain after every operation."""

    def __init__(self):
        self.m = m = Model()
        x = m.integer(lower_bound=0, upper_bound=2)
        b = m.binary()
        self.held = [x, b]
        self.pred = {x.id(): (), b.id(): ()}
        self.decs = [x.id(), b.id()]
        self.keep = []
        self.obj = None
        self.cons = []
        self.kind = {x.id(): "IntegerVariable", b.id(): "BinaryVariable"}
        self.value = {x.id(): lambda v: float(v[0]), b.id(): lambda v: float(v[1])}
        self.logical = {b.id()}
        self.other = Model()
        self.foreign = self.other.integer()

    def new(self, s, ids, value):
        i = s.id()
        self.pred[i] = tuple(ids)
        self.kind[i] = type(s).__name__
        self.value[i] = value
        self.logical.discard(i)
        self.held.append(s)

    def drop_ids(self, gone):
        for i in gone:
            del self.pred[i], self.kind[i], self.value[i]
            self.logical.discard(i)

    def used(self, i):
        return any(i in p for p in self.pred.values())

    def ancestors(self, ids):
        out, todo = set(), list(ids)
        while todo:
            i = todo.pop()
            if i not in out:
                out.add(i)
                todo += self.pred[i]
        return out


def ops_of(w):
    n = len(w.held)
    last = range(max(0, n - 2), n)
    for a in last:
        yield ("nary", a)
        yield ("neg", a)
    for a in last:
        if w.kind[w.held[a].id()] == "NaryAdd":
            yield ("iadd", a, 0)
            yield ("iadd", a, n - 1)
            yield ("iadd-foreign", a)
            yield ("iadd-shape", a)
    yield ("bad-foreign", n - 1)
    yield ("bad-shape", n - 1)
    yield ("drop",)
    yield ("again", n - 1)
    yield ("minimize", n - 1)
    yield ("constrain", 1)
    yield ("remove",)
    yield ("lock",)
    yield ("copy",)


def apply(c, w, op):
    m, k = w.m, op[0]
    if k == "neg":
        a = w.held[op[1]]
        f = w.value[a.id()]
        w.new(-a, [a.id()], lambda v: -f(v))
    elif k == "nary":
        a, b = w.held[op[1]], w.held[0]
        f, g = w.value[a.id()], w.value[b.id()]
        w.new(dm.add(a, b, b), [a.id(), b.id(), b.id()], lambda v: f(v) + 2 * g(v))
    elif k == "iadd":
        z, a = w.held[op[1]], w.held[op[2]]
        zi, ai = z.id(), a.id()
        f, g = w.value[zi], w.value[ai]
        busy = w.used(zi)
        s = z
        s += a
        if s.id() == zi:
            c.check(not busy, "in place", "an in-place sum changes a symbol that is in use")
            w.pred[zi] += (ai,)
            w.value[zi] = lambda v: f(v) + g(v)
        else:
            w.new(s, [zi, ai], lambda v: f(v) + g(v))
    elif k in ("iadd-foreign", "iadd-shape", "bad-foreign", "bad-shape"):
        z = w.held[op[1]]
        other = w.foreign if "foreign" in k else None
        if other is None:
            for make in (lambda: m.set(3), lambda: m.integer(3)):
                d = make()
                w.pred[d.id()] = ()
                w.kind[d.id()] = type(d).__name__
                w.value[d.id()] = None
                w.decs.append(d.id())
                w.keep.append(d)
            s3, i3 = w.keep[-2:]
            for fn in ((lambda: dm.add(s3, i3, z)), (lambda: s3 + i3), (lambda: dm.where(i3, s3, z)), (lambda: dm.concatenate((i3, z)))):
                try:
                    fn()
                    c.fail("accepted", "a set and an array are combined")
                except REFUSAL:
                    pass
            if k == "iadd-shape":
                try:
                    z += i3
                    c.check(z.shape() == (3,) and not z.shares_memory(w.held[op[1]]), "accepted", "a scalar sum became an array in place")
                    w.pred[z.id()] = (w.held[op[1]].id(), i3.id())
                    w.kind[z.id()] = type(z).__name__
                    w.value[z.id()] = None
                    w.keep.append(z)
                except REFUSAL:
                    pass
            return
        for fn in ((lambda: z + other), (lambda: dm.add(z, z, other)), (lambda: dm.where(w.held[1], z, other)), (lambda: dm.maximum(other, z))):
            if k == "bad-foreign":
                try:
                    fn()
                    c.fail("accepted", "symbols of two models are combined")
                except REFUSAL:
                    pass
        if k == "iadd-foreign":
            try:
                z += other
                c.fail("accepted", "a symbol of another model is added in place")
            except REFUSAL:
                pass
        for fn in (m.minimize, m.add_constraint):
            try:
                fn(other)
                c.fail("accepted", "a symbol of another model is registered")
            except REFUSAL:
                pass
    elif k == "drop":
        if len(w.held) > 2:
            w.held.pop()
    elif k == "again":
        i = w.held[op[1]].id()
        s, = [s for s in m.iter_symbols() if s.id() == i]
        c.check(s.shares_memory(w.held[op[1]]) and not s.expired(), "again", "a symbol obtained again is another one")
        w.held[op[1]] = s
    elif k == "minimize":
        m.minimize(w.held[op[1]])
        w.obj = w.held[op[1]].id()
    elif k == "constrain":
        m.add_constraint(w.held[1])
        w.cons.append(w.held[1].id())
    elif k == "remove":
        keep = w.ancestors([s.id() for s in w.held + w.keep] + w.decs + ([w.obj] if w.obj is not None else []) + w.cons)
        gone = set(w.pred) - keep
        n = m.remove_unused_symbols()
        c.check(n == len(gone), "removed", "%d symbols are removed instead of %d" % (n, len(gone)))
        w.drop_ids(gone)
    elif k == "lock":
        with m.lock():
            before = sorted(s.id() for s in m.iter_symbols())
            for fn in ((lambda: -w.held[0]), (lambda: m.integer()), (lambda: m.constant(1)), (lambda: w.held[0] + w.held[1]), (lambda: dm.add(w.held[0], w.held[0], w.held[1])), (lambda: m.remove_unused_symbols())):
                try:
                    fn()
                    c.fail("accepted", "a locked model is changed")
                except REFUSAL:
                    pass
            z = w.held[-1]
            if w.kind[z.id()] == "NaryAdd":
                try:
                    z += w.held[0]
                    c.fail("accepted", "a symbol of a locked model is changed")
                except REFUSAL:
                    pass
            c.check(sorted(s.id() for s in m.iter_symbols()) == before, "locked", "refused changes of a locked model change it")
    elif k == "copy":
        # copies of handles share memory and survive the original handle
        s = w.held[-1]
        t, = [t for t in m.iter_symbols() if t.id() == s.id()]
        w.held[-1] = t
        del s


def consistent(c, w):
    m = w.m
    syms = list(m.iter_symbols())
    got = {s.id(): (type(s).__name__, tuple(p.id() for p in s.iter_predecessors())) for s in syms}
    want = {i: (w.kind[i], w.pred[i]) for i in w.pred}
    c.check(len(syms) == len(got), "twice", "a symbol is enumerated twice")
    c.check(got == want, "symbols", lambda: "the symbols are %s instead of %s" % (got, want))
    for s in syms:
        succ = sorted(t.id() for t in s.iter_successors())
        ws = sorted(j for j in w.pred for p in w.pred[j] if p == s.id())
        c.check(succ == ws, "successors", lambda: "successors of %r: %s instead of %s" % (s, succ, ws))
    c.check([s.id() for s in m.iter_decisions()] == w.decs, "decisions", "wrong decisions")
    c.check([s.id() for s in m.iter_constraints()] == w.cons, "constraints", "wrong constraints")
    c.check((m.objective is None) if w.obj is None else m.objective.id() == w.obj, "objective", "wrong objective")
    c.check(m.num_symbols() == m.num_nodes() == len(syms) and m.num_decisions() == len(w.decs) and m.num_constraints() == len(w.cons) and m.num_edges() == sum(map(len, w.pred.values())), "counts", "wrong counts")
    for h in w.held:
        c.check(not h.expired() and h.id() in w.pred, "expired", "a held symbol is expired or gone")


def networkx_graph(c, w):
    """The graph handed to NetworkX has the model's symbols, one edge per use, and what is minimised and required."""
    m = w.m
    G = m.to_networkx()
    name = {s.id(): repr(s) for s in m.iter_symbols()}
    want = sorted([(name[p], name[i]) for i in w.pred for p in w.pred[i]] + ([(name[w.obj], "minimize")] if w.obj is not None else []) + [(name[i], "constraint(s)") for i in w.cons])
    got = sorted((a, b) for a, b in G.edges())
    nodes = set(name.values()) | ({"minimize"} if w.obj is not None else set()) | ({"constraint(s)"} if w.cons else set())
    c.check(got == want and set(G.nodes()) == nodes, "networkx", lambda: "the exported graph has the edges %s instead of %s" % (got, want))


def final_values(c, w):
    m = w.m
    m.states.resize(1)
    decs = list(m.iter_decisions())
    with m.lock():
        for v in itertools.product((2, 0, 1), (1, 0)):
            decs[0].set_state(0, v[0])
            decs[1].set_state(0, v[1])
            for h in w.held:
                f = w.value[h.id()]
                if f:
                    c.check(float(h.state(0)) == f(v), "value", lambda: "%r is %s instead of %s" % (h, h.state(0), f(v)))
            if w.obj is not None and w.value[w.obj]:
                c.check(float(m.objective.state(0)) == w.value[w.obj](v), "objective value", lambda: "the objective is %s instead of %s" % (m.objective.state(0), w.value[w.obj](v)))
            c.check(bool(m.feasible(0)) == all(w.value[i](v) for i in w.cons), "feasible", "wrong feasibility")
    m.states.resize(0)


def history_case(first, depth):
    def run(c):
        def go(seq):
            w = World()
            for op in seq:
                c.transitions += 1
                apply(c, w, op)
            c.last = seq
            consistent(c, w)
            if len(seq) <= 3:
                networkx_graph(c, w)
            c.states += 1
            nxt = list(ops_of(w))
            if len(seq) == depth or c.stop:
                final_values(c, w)
                c.traces += 1
                return
            c.at(seq)
            del w
            for op in nxt:
                if c.stop:
                    return
                go(seq + (op,))

        w = World()
        try:
            for op in first:
                if op not in list(ops_of(w)):
                    return
                apply(c, w, op)
        finally:
            del w
        go(first)
    return run


# enumeration while the model changes ------------------------------------------

ITERS = ("symbols", "decisions", "constraints", "pred", "succ")
CHANGES = ("grow", "grow-dec", "grow-con", "grow-succ", "grow-pred", "remove", "lock", "drop")


def iterating_case(what, change, when):
    def run(c):
        c.at("%s %s %d" % (what, change, when))
        m = Model()
        x, b = m.integer(), m.binary()
        z = dm.add(x, x, b)
        tmp = [-x for _ in range(3)]
        for _ in range(2):
            m.add_constraint(b)
        m.minimize(z) if change != "grow-pred" else None
        it = {"symbols": m.iter_symbols, "decisions": m.iter_decisions, "constraints": m.iter_constraints, "pred": z.iter_predecessors, "succ": x.iter_successors}[what]()
        before = {"symbols": m.iter_symbols, "decisions": m.iter_decisions, "constraints": m.iter_constraints, "pred": z.iter_predecessors, "succ": x.iter_successors}[what]()
        before = [s.id() for s in before]
        got = []
        for _ in range(when):
            s = next(it, None)
            if s is None:
                break
            got.append(s.id())
        keep = []
        for k in range(40):
            if change == "grow":
                keep.append(-b)
            elif change == "grow-dec":
                keep.append(m.integer())
            elif change == "grow-con":
                m.add_constraint(b)
            elif change == "grow-succ":
                keep.append(abs(x))
            elif change == "grow-pred":
                z += x
        if change == "drop":
            del tmp
            gc.collect()
            m.remove_unused_symbols()
        elif change == "remove":
            m.remove_unused_symbols()
        elif change == "lock":
            m.lock()
        for s in it:
            got.append(s.id())
            c.check(not s.expired(), "expired", "an expired symbol is enumerated")
            if len(got) > 400:
                c.fail("endless", "the enumeration does not end")
                break
        now = {"symbols": m.iter_symbols, "decisions": m.iter_decisions, "constraints": m.iter_constraints, "pred": z.iter_predecessors, "succ": x.iter_successors}[what]()
        now = [s.id() for s in now]
        # every symbol present throughout, at an unchanged place, is enumerated; nothing else than symbols of the model is
        if change != "drop":
            c.check(set(before) <= set(got) and set(got) <= set(now) | set(before), "missed", "enumerated %s; before %s, after %s" % (got, before, now))
        else:
            c.check(set(got) <= set(now) | set(before), "invented", "enumerated %s; before %s, after %s" % (got, before, now))
        c.states += 1
        c.transitions += len(got)
        c.traces += 1
    return run


def lifetime_case(dec):
    def run(c):
        def values(sym):
            return sym.state(0)

        for drop in ("model", "model+states", "all but last", "states only"):
            c.at("%s %s" % (dec.name, drop))
            m = Model()
            main, arrays = dec.build(m)
            st = m.states
            y = [a.sum() for a in arrays]
            z = y[0] * y[0]
            want = [dec.arrays(v)[0].sum() ** 2 for v in dec.some(5)]
            st.resize(len(want))
            for k, v in enumerate(dec.some(5)):
                main.set_state(k, v)
            if drop == "model":
                del m
            elif drop == "model+states":
                del m, st
            elif drop == "states only":
                del st
            else:
                del m, st, main, arrays, y
            gc.collect()
            z.model.lock()
            got = [float(z.state(k)) for k in range(len(want))]
            c.check(got == [float(x) for x in want], "value", "handles outliving the model read %s instead of %s" % (got, want))
            c.check(not z.expired(), "expired", "the symbol is expired")
            n = len(list(z.model.iter_symbols()))
            c.check(n == z.model.num_symbols(), "count", "wrong number of symbols")
            c.states += 1
        # the states of a model that is gone
        c.at("%s states of a model that is gone" % dec.name)
        m = Model()
        main, arrays = dec.build(m)
        st = m.states
        st.resize(2)
        main.set_state(0, dec.values[0])
        with st.to_file() as f:
            saved = f.read()
        it = m.iter_symbols()
        next(it)
        del main, arrays, it, m
        gc.collect()
        for name, fn in (("initialize", st.initialize), ("into_file", lambda: st.to_file()), ("from_file", lambda: st.from_file(io.BytesIO(saved)))):
            try:
                fn()
                c.fail("gone", "%s works on the states of a model that is gone" % name)
            except ReferenceError:
                pass
        c.check(st.size() == 2 and len(st) == 2, "gone", "the states have another size")
        st.resize(3)
        st.clear()
        c.check(st.size() == 0, "gone", "cleared states are not empty")
        # a dangling generator keeps the model alive
        m = Model()
        main, arrays = dec.build(m)
        it = m.iter_symbols()
        next(it)
        del main, arrays, m
        gc.collect()
        rest = list(it)
        c.check(all(not s.expired() for s in rest), "generator", "a generator outliving the model yields expired symbols")
        c.states += 1
        c.traces += 1
    return run


def param_variants():
    """Builders over fixed decisions whose symbols differ in a parameter only."""
    return {
        "integer": [lambda m, lo=lo, hi=hi, sh=sh: m.integer(sh, lower_bound=lo, upper_bound=hi) for sh in ((), (1,), (2,), (1, 2), (2, 1)) for lo in (0, 1) for hi in (2, 3)],
        "binary": [lambda m, sh=sh: m.binary(sh) for sh in ((), (1,), (2,), (1, 2), (2, 1), (2, 2))],
        "set": [lambda m, a=a: m.set(*a) for a in ((3,), (3, 0, 3), (3, 1), (3, 1, 2), (2,), (2, 1, 1), (4, 2, 2))],
        "list": [lambda m, a=a: m.list(a) for a in (0, 1, 2, 3)],
        "constant": [lambda m, v=v: m.constant(v) for v in (0, 1, [1], [1, 1], [[1]], [[1, 1]], [[1], [1]], [], [[]], [1, 2], [2, 1], 1.5, [1.5], -1, True, [0, 0], [[0, 0]])],
    }


def parts_case(c):
    """The parts of a disjoint variable know which part they are, also when found again from the whole or the model."""
    for n in range(0, 4):
        for k in range(1, 5):
            for make, index, num in ((lambda m: m.disjoint_lists(n, k), "list_index", "num_disjoint_lists"), (lambda m: m.disjoint_bit_sets(n, k), "set_index", "num_disjoint_sets")):
                c.at("%s of %d in %d parts" % (index, n, k))
                m = Model()
                m.integer(2)
                try:
                    d, parts = make(m)
                    e, more = make(m)
                except REFUSAL:
                    c.check(n == 0, "refused", "%d elements in %d parts" % (n, k))
                    continue
                for whole, ps in ((d, parts), (e, more)):
                    c.check(getattr(whole, num)() == k == len(ps), "parts", "%s is %d and there are %d parts instead of %d" % (num, getattr(whole, num)(), len(ps), k))
                    c.check([getattr(p, index)() for p in ps] == list(range(k)), "part", "%s are %s" % (index, [getattr(p, index)() for p in ps]))
                    succ = list(whole.iter_successors())
                    c.check([getattr(p, index)() for p in succ] == list(range(k)) and [p.id() for p in succ] == [p.id() for p in ps], "part", "%s of the successors are %s" % (index, [getattr(p, index)() for p in succ]))
                    found = {s.id(): s for s in m.iter_symbols()}
                    c.check(all(getattr(found[p.id()], index)() == i and [q.id() for q in found[p.id()].iter_predecessors()] == [whole.id()] for i, p in enumerate(ps)), "part", "the parts found in the model differ")
                c.states += 1
                c.transitions += 4 * k
    c.traces += 1


def domain(model_builder):
    m = Model()
    s = model_builder(m)
    out = [type(s).__name__, s.shape()]
    if isinstance(s, ds.IntegerVariable):
        out += [s.lower_bound(), s.upper_bound()]
    elif isinstance(s, ds.SetVariable):
        out += [sorted(str(v) for v in accepted(m, s))]
    elif isinstance(s, ds.Constant):
        out += [np.asarray(s).tolist()]
    elif isinstance(s, ds.ListVariable):
        out += [s.size()]
    return out


def accepted(m, s):
    m.states.resize(1)
    for k in range(5):
        for t in itertools.combinations(range(5), k):
            try:
                s.set_state(0, list(t))
                yield t
            except REFUSAL:
                pass


def variants_case(kind):
    def run(c):
        B = param_variants()[kind]
        D = [domain(b) for b in B]
        for (i, a), (j, b) in itertools.product(enumerate(B), enumerate(B)):
            c.at("%s %d %d" % (kind, i, j))
            m, n = Model(), Model()
            x, y, w = a(m), b(n), b(m)
            alike = D[i] == D[j]
            c.check(x.equals(y) == alike, "across", "%s and %s across models: equals is %s" % (D[i], D[j], x.equals(y)))
            # in one model two decisions are different quantities; constants with the same values are the same
            c.check(x.equals(w) == (alike and kind == "constant"), "within", "%s and %s in one model: equals is %s" % (D[i], D[j], x.equals(w)))
            c.check(not x.shares_memory(w) and not x.shares_memory(y) and x.id() != w.id(), "shares_memory", "%s and %s share memory" % (D[i], D[j]))
            if x.maybe_equals(y) == 0 or x.maybe_equals(y) == 2:
                c.check((x.maybe_equals(y) == 2) == alike, "maybe", "%s and %s: maybe_equals is %s" % (D[i], D[j], x.maybe_equals(y)))
            c.states += 1
            c.transitions += 3
        c.traces += 1
    return run


def make_cases(prop, tier):
    thorough = tier == "thorough"
    cases = []
    decs = lib.small_decs()
    for d in decs:
        cases.append(("family/" + d.name, family_case(d, None, 1, None)))
        cases.append(("twice/" + d.name, family_case(d, d, 1, None)))
    others = decs if thorough else [d for d in decs if d.name in ("binary(3,)", "integer(2,)[-2,2]", "integer()[-2,3]", "list(3)", "set(3,0,None)", "dlists(3,2)", "dbits(3,2)")]
    for d, e in itertools.permutations(others, 2):
        cases.append(("cross/%s/%s" % (d.name, e.name), family_case(d, e, 1, None if thorough else (lambda n: "[" in n or n in ("sum", "neg", "abs", "tab", "qm", "sum0", "flat", "col", "where", "cat", "nadd", "add2", "addarr")))))
    if thorough:
        names = sorted({v.name.split(".", 1)[1] for d in (lib.integer((2, 2), -1, 1), lib.st(3), lib.lst(3)) for v in lib.Family(d, 1).vals if "." in v.name})
        for d in [x for x in decs if x.name in ("integer(2, 2)[-1,1]", "set(3,0,None)", "list(3)", "integer(2,)[-2,2]")]:
            for n in names:
                cases.append(("deep/%s/%s" % (d.name, n), family_case(d, None, 2, lambda x, n=n: x == n)))
                cases.append(("deep2/%s/%s" % (d.name, n), family_case(d, d, 2, lambda x, n=n: x == n)))
    for k in param_variants():
        cases.append(("variants/" + k, variants_case(k)))
    cases.append(("parts", parts_case))
    kinds = ("neg", "add", "le", "nary", "where", "iadd", "const")
    progs = [p for d in range(3) for p in removal.programs(d, kinds)]
    for k, part in enumerate(removal.chunks(progs, 60)):
        cases.append(("programs/%d" % k, program_pairs_case(part, progs)))
    deep = list(removal.programs(3, kinds + ("and", "bin")))
    for k, part in enumerate(removal.chunks(deep, 60)):
        cases.append(("same-model/%d" % k, same_model_case(part)))
    w = World()
    for op in ops_of(w):
        w2 = World()
        apply(runner.Ctx(bytearray(runner.HIST), "probe"), w2, op)
        for op2 in ops_of(w2):
            cases.append(("history/%s/%s" % ("-".join(map(str, op)), "-".join(map(str, op2))), history_case((op, op2), 6 if thorough else 5)))
    for a in ITERS:
        for b in CHANGES:
            for k in range(6):
                cases.append(("iterating/%s/%s/%d" % (a, b, k), iterating_case(a, b, k)))
    for d in decs:
        cases.append(("lifetime/" + d.name, lifetime_case(d)))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
