"""C08: models over every decision kind, every operator, every parameter and many construction orders, saved and loaded."""
import io
import itertools
import os
import tempfile
import zipfile

import numpy as np

import assign
import lib
import runner
from dwave.optimization import Model
from dwave.optimization import mathematical as dm
from dwave.optimization import symbols as ds

REFUSAL = (ValueError, TypeError, IndexError, OverflowError)


def content(data):
    """The header and the members of a saved model (times of day aside)."""
    n = int.from_bytes(data[6:10], "little")
    z = zipfile.ZipFile(io.BytesIO(data))
    return [("header", data[:10 + n])] + [(i.filename, z.read(i)) for i in z.infolist()]


def save(m, how):
    if how == 0:
        f = m.to_file()
        return f.read()
    if how == 1:
        f = io.BytesIO()
        m.into_file(f)
        return f.getvalue()
    fd, name = tempfile.mkstemp(suffix=".nl")
    os.close(fd)
    try:
        m.into_file(name)
        with open(name, "rb") as f:
            return f.read()
    finally:
        os.unlink(name)


def load(data, how):
    if how == 0:
        return Model.from_file(io.BytesIO(data))
    if how == 1:
        return Model.from_file(io.BytesIO(data), check_header=False)
    fd, name = tempfile.mkstemp(suffix=".nl")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        return Model.from_file(name)
    finally:
        os.unlink(name)


def describe(m):
    """What can be observed of a locked model's structure."""
    out = []
    for s in m.iter_symbols():
        d = [type(s).__name__, s.topological_index(), [p.topological_index() for p in s.iter_predecessors()], s.state_size()]
        if isinstance(s, ds.ArraySymbol) if hasattr(ds, "ArraySymbol") else hasattr(s, "shape"):
            d += [s.shape(), s.ndim(), s.size() if not (s.shape() and s.shape()[0] == -1) else None]
        if isinstance(s, ds.IntegerVariable):
            d += [s.lower_bound(), s.upper_bound()]
        if isinstance(s, ds.Constant):
            a = np.asarray(s)
            d += [a.shape, a.tobytes()]
        if isinstance(s, (ds.DisjointLists, ds.DisjointBitSets)):
            d.append(len(list(s.iter_successors())))
        for f in ("axis", "axes", "set_index", "list_index", "num_disjoint_sets", "num_disjoint_lists", "primary_set_size", "num_variables", "num_interactions"):
            if hasattr(s, f):
                d.append((f, getattr(s, f)()))
        if hasattr(s, "get_linear") and hasattr(s, "num_variables"):
            n = s.num_variables()
            d.append([s.get_linear(u) for u in range(n)] + [s.get_quadratic(u, v) for u in range(n) for v in range(n)])
        out.append(d)
    o = m.objective
    return out, None if o is None else o.topological_index(), [x.topological_index() for x in m.iter_constraints()], m.num_symbols(), m.num_decisions(), m.num_edges(), m.num_constraints()


def snapshot(m):
    """What saving must not change."""
    n = m.states.size()
    out = [m.is_locked(), n, m.num_symbols(), m.num_edges(), [s.id() for s in m.iter_symbols()] if m.is_locked() else sorted(s.id() for s in m.iter_symbols()),
           None if m.objective is None else m.objective.id(), [x.id() for x in m.iter_constraints()], [s.id() for s in m.iter_decisions()]]
    for i in range(n):
        for s in m.iter_decisions():
            out.append(s.has_state(i))
            if s.has_state(i) and hasattr(s, "state"):
                out.append(s.state(i).tolist())
    return out


def roundtrip(c, m, how=0, equal=True):
    """Save and load m (twice); returns the loaded model, with what can be compared without states compared."""
    before = snapshot(m)
    data = save(m, how)
    c.check(snapshot(m) == before, "save alters", lambda: "saving changed %s into %s" % (before, snapshot(m)))
    m2 = load(data, how)
    c.check(not m2.is_locked(), "locked", "the loaded model is locked")
    data2 = save(m2, 0)
    m3 = load(data2, 1)
    a, b = content(data), content(data2)
    c.check(a == b, "second save", lambda: "a second save differs: %s" % [(x, y) for x, y in itertools.zip_longest(a, b) if x != y][:2])
    with m.lock(), m2.lock(), m3.lock():
        d1, d2, d3 = describe(m), describe(m2), describe(m3)
        c.check(d1 == d2, "structure", lambda: "the loaded model differs: %s" % [(x, y) for x, y in zip(d1[0] + list(d1[1:]), d2[0] + list(d2[1:])) if x != y][:2])
        c.check(d1 == d3, "structure2", "the model loaded from a second save differs")
        for s, t in zip(m.iter_symbols(), m2.iter_symbols()) if equal else ():
            c.check(bool(s.equals(t)) or type(s).__name__ in ("QuadraticModel",), "equals", lambda: "%s is not equal to what was loaded for it" % type(s).__name__, type(s).__name__)
    c.traces += 1
    return m2


def family_case(dec, depth, only, nassign, how, late=False):
    def run(c):
        c.at("%s depth %d" % (dec.name, depth))
        m = Model()
        if late:  # things that come before the decision in creation order but not in the file
            k = m.constant([3.0, 1.0])
            m.add_constraint((k[0] <= k[1]))
        fam = lib.Family(dec, depth, only, model=m)
        for v in fam.vals:
            if not v.dynamic and v.sym.size() == 1 and isinstance(v.sym, (ds.LessEqual, ds.Logical, ds.Not)):
                m.add_constraint(v.sym)
        cand = [v for v in fam.vals if not v.dynamic and v.sym.size() == 1]
        if cand:
            m.minimize(cand[-1].sym)
        m2 = roundtrip(c, m, how)
        if c.stop:
            return
        with m.lock(), m2.lock():
            syms = list(m2.iter_symbols())
            main2 = syms[fam.main.topological_index()]
            pairs = [(v, syms[v.sym.topological_index()]) for v in fam.vals]
            m.states.resize(1)
            m2.states.resize(1)
            for val in dec.some(nassign):
                c.at("%s %s" % (dec.name, val))
                fam.main.set_state(0, val)
                main2.set_state(0, val)
                c.states += 1
                for v, s2 in pairs:
                    a, b = v.sym.state(0), s2.state(0)
                    c.transitions += 1
                    if not (a.shape == b.shape and np.array_equal(a, b, equal_nan=True)):
                        c.fail("value", "%s at %s: the loaded model gives %s instead of %s" % (v.name, val, b.tolist(), a.tolist()), v.name.split(".", 1)[-1])
                    c.evaluations += 1
                if m.objective is not None:
                    c.check(np.array_equal(m.objective.state(0), m2.objective.state(0), equal_nan=True), "objective", "the objective differs at %s" % (val,))
                c.check([x.state(0).tolist() for x in m.iter_constraints()] == [x.state(0).tolist() for x in m2.iter_constraints()], "constraints", "the constraints differ at %s" % (val,))
                if c.stop:
                    return
    return run


def domain_case(kind):
    """The loaded variable accepts and refuses the same values."""
    def run(c):
        m = Model()
        kind.dec.build(m)
        m2 = roundtrip(c, m)
        main2 = next(m2.iter_decisions())
        with m2.lock():
            m2.states.resize(1)
            for v, valid in kind.cands():
                c.at("%s %s" % (kind.name, v))
                try:
                    main2.set_state(0, v)
                    ok = True
                except REFUSAL:
                    ok = False
                c.check(ok == valid, "domain", "after loading, %s %s %s" % (kind.name, "accepts" if ok else "refuses", v))
                c.states += 1
    return run


def constants_case():
    def run(c):
        base = np.arange(24, dtype=float).reshape(2, 3, 4) - 7.25
        arrs = [base, base.astype(np.float32), base[:, ::2, ::-1], np.asfortranarray(base), base.T, base[0], base[0, 0], np.float64(-0.0), np.float64(1e-320), np.float64(1e308), 7, True,
                np.array([]), np.zeros((0, 3)), np.zeros((2, 0)), np.zeros((1,)), np.zeros((1, 1, 1)), np.array([True, False]), np.arange(5, dtype=np.int8) - 2, np.arange(3, dtype=np.uint64),
                np.array([2 ** 53 - 1, -2 ** 53]), [[1, 2], [3, 4]], np.array([1e-300, 3.141592653589793, -2.5]), np.array([0.1, 0.2, 0.3])]
        for k, a in enumerate(arrs):
            c.at("constant %d" % k)
            m = Model()
            s = m.constant(a)
            c.check(np.array_equal(np.asarray(s), np.asarray(a, dtype=float)) and np.asarray(s).shape == np.asarray(a).shape, "constant", "constant %s reads %s" % (a, np.asarray(s)))
            m2 = roundtrip(c, m, k % 3)
            with m2.lock():
                m2.states.resize(1)
                s2 = next(m2.iter_symbols())
                c.check(np.array_equal(s2.state(0), np.asarray(a, dtype=float)), "constant state", "loaded constant %s reads %s" % (a, s2.state(0)))
            c.states += 1
            c.transitions += 1
    return run


IDX = [0, 1, -1, slice(None), slice(1, None), slice(2, 2), slice(0, 0), slice(None, None, 2), slice(1, 2), slice(5, 9), slice(-1, None), slice(None, -1), slice(None, None, 5)]


def index_case(shape, first):
    """Basic indexing with every combination of indices."""
    def run(c):
        n = int(np.prod(shape))
        m = Model()
        x = m.integer(shape, -5, 40)
        want = []
        a = np.arange(n).reshape(shape)
        for ix in itertools.product(*[[first]] + [IDX] * (len(shape) - 1)):
            c.at("%s[%s]" % (shape, ix))
            try:
                w = a[ix]
            except IndexError:
                continue
            try:
                want.append((x[ix], w))
            except (ValueError, IndexError):
                continue
        m2 = roundtrip(c, m)
        with m.lock(), m2.lock():
            m2.states.resize(1)
            syms = list(m2.iter_symbols())
            syms[x.topological_index()].set_state(0, a)
            for s, w in want:
                got = syms[s.topological_index()].state(0)
                c.check(got.shape == w.shape and np.array_equal(got, w), "value", lambda: "loaded index gives %s instead of %s" % (got.tolist(), w.tolist()))
                c.states += 1
                c.transitions += 1
    return run


def dyn_index_case():
    def run(c):
        m = Model()
        s = m.set(4)
        d, (l0, l1) = m.disjoint_lists(primary_set_size=4, num_disjoint_lists=2)
        table = m.constant(np.arange(12).reshape(4, 3))
        want = []
        opts = [None, 0, 1, 2, 4, 9, -1, -2, -9]
        for base, rows in ((s, None), (l1, None), (table[s, :], 1), (table[l0, :], 1)):
            for st, sp, step in itertools.product(opts, opts, [None, 1, 2, 3]):
                c.at("[%s:%s:%s]" % (st, sp, step))
                if rows:
                    for second in (slice(None), 1, slice(1, None), slice(None, None, 2)):
                        want.append((base[st:sp:step, second]))
                else:
                    want.append((base[st:sp:step]))
        m2 = roundtrip(c, m)
        with m.lock(), m2.lock():
            syms = list(m2.iter_symbols())
            m.states.resize(1)
            m2.states.resize(1)
            for sv, dv in (([], [[0, 1, 2, 3], []]), ([2], [[3], [1, 0, 2]]), ([0, 3], [[1, 2], [3, 0]]), ([1, 2, 3], [[], [0, 1, 2, 3]]), ([0, 1, 2, 3], [[2, 1, 0], [3]])):
                for mm, a, b in ((m, s, d), (m2, syms[s.topological_index()], syms[d.topological_index()])):
                    a.set_state(0, sv)
                    b.set_state(0, dv)
                for x in want:
                    a, b = x.state(0), syms[x.topological_index()].state(0)
                    c.check(a.shape == b.shape and np.array_equal(a, b), "value", lambda: "loaded dynamic slice gives %s instead of %s" % (b.tolist(), a.tolist()))
                    c.transitions += 1
                c.states += 1
    return run


def dags(nodes):
    """Every way of building a small model, one symbol after another: operand choices are earlier symbols."""
    makers = ["bin", "int", "const", "neg", "add", "nary", "le", "dl", "where"]

    def go(prefix, avail):
        if len(prefix) == nodes:
            yield list(prefix)
            return
        for k in makers:
            if k in ("bin", "int", "const", "dl"):
                yield from go(prefix + [(k,)], avail + [len(prefix)])
            elif avail:
                if k == "neg":
                    for a in avail:
                        yield from go(prefix + [(k, a)], avail + [len(prefix)])
                elif k == "where":
                    for a in avail[-2:]:
                        yield from go(prefix + [(k, a, avail[0])], avail + [len(prefix)])
                else:
                    for a, b in itertools.product(avail, avail):
                        yield from go(prefix + [(k, a, b)], avail + [len(prefix)])

    yield from go([], [])


def build(prog):
    m = Model()
    s = []
    for k, *args in prog:
        a = [s[i] for i in args]
        if k == "bin":
            s.append(m.binary())
        elif k == "int":
            s.append(m.integer(lower_bound=-2, upper_bound=3))
        elif k == "const":
            s.append(m.constant(0.5 + len(s)))
        elif k == "dl":
            d, ls = m.disjoint_lists(primary_set_size=2, num_disjoint_lists=2)
            s.append(ls[1].sum())
        elif k == "neg":
            s.append(-a[0])
        elif k == "add":
            s.append(a[0] + a[1])
        elif k == "le":
            s.append(a[0] <= a[1])
        elif k == "nary":
            s.append(dm.add(a[0], a[1], a[0]))
        elif k == "where":
            s.append(dm.where(a[0], a[1], a[0]))
    return m, s


def dag_case(k, of, nodes):
    def run(c):
        for j, prog in enumerate(dags(nodes)):
            if j % of != k:
                continue
            c.at("program %s" % (prog,))
            m, s = build(prog)
            obj = (None, s[-1], s[0])[j // of % 3]
            if obj is not None:
                m.minimize(obj)
            for x in s[j % 2:][: (j // 3) % 3]:
                try:
                    m.add_constraint(x)
                except ValueError:  # not a logical symbol
                    pass
            m.states.resize(1)
            c.states += 1
            m2 = roundtrip(c, m, 0)
            with m.lock(), m2.lock():
                m2.states.resize(1)
                for rep in range(2):
                    for n, (x, y) in enumerate(zip(m.iter_decisions(), m2.iter_decisions())):
                        v = {ds.BinaryVariable: [rep, 1 - rep][n % 2], ds.IntegerVariable: [3, -2, 1][(n + rep) % 3], ds.DisjointLists: [[[], [0, 1]], [[0], [1]]][rep]}[type(x)]
                        x.set_state(0, v)
                        y.set_state(0, v)
                    a = [x.state(0).tolist() for x in m.iter_symbols() if hasattr(x, "state")]
                    b = [x.state(0).tolist() for x in m2.iter_symbols() if hasattr(x, "state")]
                    c.check(a == b, "value", lambda: "the loaded model evaluates to %s instead of %s" % (b, a))
                    c.transitions += 1
            if c.stop:
                return
    return run


def states_kept_case(locked):
    """Saving with states present, at every pattern of set and unset states."""
    def run(c):
        for pat in itertools.product((0, 1), repeat=6):
            m = Model()
            x, y = m.integer((2,), -1, 2), m.list(2)
            d, (p, q) = m.disjoint_lists(primary_set_size=2, num_disjoint_lists=2)
            m.minimize(x.sum() + y.sum() + q.sum())
            m.states.resize(2)
            if locked:
                m.lock()
            for k, on in enumerate(pat):
                if on:
                    [x, y, d][k % 3].set_state(k // 3, [[2, -1], [1, 0], [[1], [0]]][k % 3])
            c.at("pattern %s" % (pat,))
            c.states += 1
            roundtrip(c, m)
            c.transitions += 1
    return run


def many_case(kind, n):
    """Models with more symbols, constraints, operands or members than one digit (or two) counts."""
    def run(c):
        m = Model()
        x = m.integer((3,), -4, 4)
        bits = m.binary((n,))
        keep = []
        if kind == "symbols":
            prev = [x[k] for k in range(3)]
            for k in range(n):
                prev.append(prev[k] - prev[k + 1] if k % 3 else dm.maximum(prev[k], prev[k + 2]))
            m.minimize(prev[-1])
        elif kind == "constraints":
            ks = [m.constant(float(k % 5)) for k in range(n)]
            for k in sorted(range(n), key=lambda k: (k * 7) % n):  # not in the order they were created in
                m.add_constraint(x[k % 3] * ks[k] <= ks[n - 1 - k])
            m.minimize(x.sum())
        elif kind == "operands":
            parts = [bits[k] for k in range(n)]
            for k in sorted(range(n), key=lambda k: (k * 3) % n):
                keep.append(parts[k])
            w = [keep[k] * m.constant(float(k)) for k in range(n)]
            m.minimize(dm.add(*w))
            m.add_constraint(dm.multiply(*keep) <= m.constant(0.5))
            m.add_constraint(dm.maximum(*w) <= m.constant(n - 2.0))
            cat = dm.concatenate([a.reshape(1) for a in w])
            m.add_constraint(cat[n // 2] <= m.constant(0.0))
        elif kind == "members":
            d, lists = m.disjoint_lists(n + 1, n)
            e, sets = m.disjoint_bit_sets(3, n)
            for k in sorted(range(n), key=lambda k: (k * 5) % n):
                keep.append(lists[k].sum() - sets[k].sum() * m.constant(float(k)))
            m.minimize(dm.add(*keep))
        elif kind == "decisions":
            ds_ = [m.integer((2,), k, k + 1) for k in range(n)]
            for k in sorted(range(n), key=lambda k: (k * 5) % n):
                keep.append((ds_[k] * m.constant(k + 1)).sum())
            m.minimize(dm.add(*keep))
        m.states.resize(1)
        c.at("%s %d" % (kind, n))
        c.states += 1
        m2 = roundtrip(c, m, n % 3, kind != "symbols")  # comparing symbols follows every path, of which there are too many
        c.transitions += 1
        sets_ = []
        for d in m.iter_decisions():
            if isinstance(d, ds.DisjointLists):
                sets_.append([[[n - k] if k else [n, 0] for k in range(n)], [[k + 1] for k in range(n - 1)] + [[0, n]]])
            elif isinstance(d, ds.DisjointBitSets):
                sets_.append([[[int(k == 1), int(k == n - 1), int(k == n // 2)] for k in range(n)], [[int(k == 2), int(k == 0), int(k == n - 2)] for k in range(n)]])
            elif isinstance(d, ds.BinaryVariable):
                sets_.append([[int(k % 3 == 0) for k in range(n)], [int(k == n // 2) for k in range(n)]])
            elif d.size() == 3:
                sets_.append([[-1, 3, 2], [4, -4, 0]])
            else:
                lo = int(d.lower_bound())
                sets_.append([[lo, lo + (lo % 2)], [lo + 1, lo]])
        if c.stop:
            return
        m2.states.resize(1)
        for t in range(2):
            got = []
            for M in (m, m2):
                with M.lock():
                    for d, v in zip(M.iter_decisions(), sets_):
                        d.set_state(0, v[t])
                    got.append([s.state(0).tolist() for s in M.iter_symbols() if hasattr(s, "state")] + [M.objective.state(0), [k.state(0) for k in M.iter_constraints()]])
            c.check(got[0] == got[1], "evaluation", lambda: "the loaded model evaluates differently: %s" % [(k, a, b) for k, (a, b) in enumerate(zip(*got)) if a != b][:2])
            c.transitions += 1
    return run


def make_cases(prop, tier):
    thorough = tier == "thorough"
    cases = []
    decs = lib.small_decs()
    for k, d in enumerate(decs):
        cases.append(("ops/" + d.name, family_case(d, 1, None, 60 if thorough else 12, k % 3)))
        cases.append(("late/" + d.name, family_case(d, 1, None, 3, (k + 1) % 3, True)))
    names = sorted({v.name.split(".", 1)[1] for f in (lib.Family(d, 1) for d in decs) for v in f.vals if "." in v.name})
    use = decs if thorough else [d for d in decs if d.name in ("integer(2, 2)[-1,1]", "set(3,0,None)")]
    for d in use:
        for n in names:
            cases.append(("comp/%s/%s" % (d.name, n), family_case(d, 2, lambda x, n=n: x == n, 4, 0)))
    for k in assign.kinds(thorough):
        cases.append(("domain/" + k.name, domain_case(k)))
    cases.append(("constants", constants_case()))
    for shape in [(2,), (3,), (0,), (2, 2), (1, 2), (2, 0), (0, 2), (2, 3), (2, 2, 2)] + ([(3, 3, 3), (2, 1, 3), (4, 0, 2)] if thorough else []):
        for first in IDX:
            cases.append(("index/%s/%s" % (shape, first), index_case(shape, first)))
    cases.append(("dynamic index", dyn_index_case()))
    n, of = (4, 128) if thorough else (3, 16)
    for k in range(of):
        cases.append(("dag/%d" % k, dag_case(k, of, n)))
    for locked in (True, False):
        cases.append(("states/%s" % locked, states_kept_case(locked)))
    for kind in ("symbols", "constraints", "operands", "members", "decisions"):
        for n in (11, 12, 23, 104) + ((257,) if thorough else ()):
            cases.append(("many/%s/%d" % (kind, n), many_case(kind, n)))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
