"""Small decision variables with all their values, and the public operators with their NumPy meaning."""
import itertools

import numpy as np

from dwave.optimization import Model
from dwave.optimization import mathematical as dm
from dwave.optimization import symbols as ds


class Dec:
    """A decision variable kind: how to build it, its domain, and what its array symbols hold for a value."""

    def __init__(self, name, build, values, arrays=None, bad=(), nonneg=None):
        self.name, self._build, self.values = name, build, values
        self._arrays = arrays or (lambda v: [np.asarray(v, dtype=float)])
        self.bad = bad
        self.nonneg = nonneg

    def build(self, model):
        """-> (the symbol with set_state, the array symbols)"""
        r = self._build(model)
        return r if isinstance(r, tuple) else (r, [r])

    def arrays(self, v):
        return self._arrays(v)

    def some(self, k):
        """k values spread over the domain, first and last included."""
        n = len(self.values)
        if n <= k:
            return list(self.values)
        return [self.values[i * (n - 1) // (k - 1)] for i in range(k)]


def nested(flat, shape):
    return np.asarray(flat, dtype=np.int64).reshape(shape)


def grid(shape, lo, hi, step=1):
    n = int(np.prod(shape)) if shape else 1
    return [nested(t, shape) for t in itertools.product(range(lo, hi + 1, step), repeat=n)]


def binary(shape=()):
    return Dec("binary%s" % (shape,), lambda m: m.binary(shape), grid(shape, 0, 1))


def integer(shape, lo, hi, cap=4096):
    n = int(np.prod(shape)) if shape else 1
    vals = grid(shape, lo, hi) if (hi - lo + 1) ** n <= cap else [nested([(lo + (i * k + i // 3) % (hi - lo + 1)) for i in range(n)], shape) for k in range(24)]
    return Dec("integer%s[%d,%d]" % (shape, lo, hi), lambda m: m.integer(shape, lower_bound=lo, upper_bound=hi), vals)


def lst(n):
    return Dec("list(%d)" % n, lambda m: m.list(n), [list(p) for p in itertools.permutations(range(n))])


def st(n, lo=0, hi=None):
    h = n if hi is None else hi
    vals = [list(p) for k in range(lo, h + 1) for p in itertools.combinations(range(n), k)]
    return Dec("set(%d,%d,%s)" % (n, lo, hi), lambda m: m.set(n, lo, hi) if hi is not None else m.set(n, lo), vals)


def partitions(n, k):
    return [[[i for i in range(n) if t[i] == j] for j in range(k)] for t in itertools.product(range(k), repeat=n)]


def dlists(n, k):
    vals = []
    for p in partitions(n, k):
        for perm in itertools.product(*[list(itertools.permutations(b)) for b in p]):
            vals.append([list(b) for b in perm])

    def build(m):
        d, ls = m.disjoint_lists(primary_set_size=n, num_disjoint_lists=k)
        return d, list(ls)

    return Dec("dlists(%d,%d)" % (n, k), build, vals, lambda v: [np.asarray(b, dtype=float) for b in v])


def dbits(n, k):
    vals = [[[int(i in b) for i in range(n)] for b in p] for p in partitions(n, k)]

    def build(m):
        d, ls = m.disjoint_bit_sets(primary_set_size=n, num_disjoint_sets=k)
        return d, list(ls)

    return Dec("dbits(%d,%d)" % (n, k), build, vals, lambda v: [np.asarray(b, dtype=float) for b in v])


def small_decs():
    return [binary(), binary((3,)), binary((2, 2)), integer((), -2, 3), integer((2,), -2, 2), integer((3,), 1, 2), integer((2, 2), -1, 1), integer((1,), 0, 2),
            integer((2, 1, 2), 0, 1), lst(3), lst(1), lst(0), st(3), st(3, 1, 2), st(2, 2, 2), dlists(3, 2), dlists(2, 3), dlists(2, 1), dbits(3, 2), dbits(2, 3), dbits(2, 1)]


class Val:
    """A symbol with its reference: ref(env) is the NumPy array for env = the decisions' arrays."""

    def __init__(self, sym, ref, name, exact=True):
        self.sym, self.ref, self.name, self.exact = sym, ref, name, exact

    @property
    def shape(self):
        return self.sym.shape()

    @property
    def dynamic(self):
        return bool(self.shape) and self.shape[0] == -1


def F(a):
    return np.asarray(a, dtype=float)


def np_mod(a, b):
    a, b = np.broadcast_arrays(F(a), F(b))
    r = np.zeros(a.shape)
    nz = b != 0
    r[nz] = np.mod(a[nz], b[nz])
    return r


BINARY = {
    "add": (lambda x, y: x + y, np.add, True),
    "sub": (lambda x, y: x - y, np.subtract, True),
    "mul": (lambda x, y: x * y, np.multiply, True),
    "div": (lambda x, y: x / y, np.divide, True),
    "mod": (lambda x, y: x % y, np_mod, False),
    "le": (lambda x, y: x <= y, lambda a, b: F(a <= b), False),
    "ge": (lambda x, y: x >= y, lambda a, b: F(a >= b), False),
    "eq": (lambda x, y: x == y, lambda a, b: F(a == b), False),
    "and": (dm.logical_and, lambda a, b: F(np.logical_and(a, b)), False),
    "or": (dm.logical_or, lambda a, b: F(np.logical_or(a, b)), False),
    "xor": (dm.logical_xor, lambda a, b: F(np.logical_xor(a, b)), False),
    "maximum": (dm.maximum, np.maximum, True),
    "minimum": (dm.minimum, np.minimum, True),
    "fadd": (dm.add, np.add, True),
    "fmul": (dm.multiply, np.multiply, True),
    "fdiv": (dm.divide, np.divide, True),
    "fmod": (dm.mod, np_mod, False),
}


def _iadd(x, y):
    x = x + 0 * 0 if False else x  # keep the name local
    z = dm.add(x, y, y)
    z += x
    return z


def _imul(x, y):
    z = dm.multiply(x, y, y)
    z *= x
    return z


def apply_ops(m, x, visit, level=2):
    """Call visit(name, make, ref, exact_needed) for every operator applied to the Val x in model m."""
    sh, nd = x.shape, len(x.shape)
    r = x.ref

    def U(name, make, f, cont=True, rounds=False):
        visit(name, make, lambda e: F(f(F(r(e)))), cont, rounds)

    s = x.sym
    U("abs", lambda: abs(s), np.abs)
    U("neg", lambda: -s, np.negative)
    U("sq", lambda: s ** 2, np.square)
    U("cube", lambda: s ** 3, lambda a: a ** 3)
    U("pow1", lambda: s ** 1, lambda a: a)
    U("logical", lambda: dm.logical(s), lambda a: a != 0, False)
    U("not", lambda: dm.logical_not(s), lambda a: a == 0, False)
    U("all", lambda: s.all(), np.all, False)
    U("any", lambda: s.any(), np.any, False)
    U("max", lambda: s.max(), np.max)
    U("min", lambda: s.min(), np.min)
    U("sum", lambda: s.sum(), np.sum)
    U("prod", lambda: s.prod(), np.prod)
    U("sqrtabs", lambda: dm.sqrt(abs(s)), lambda a: np.sqrt(np.abs(a)), True, True)
    if level >= 2:
        U("sqrt", lambda: dm.sqrt(s), np.sqrt, True, True)
    if x.dynamic or nd == 0:
        if x.dynamic:
            U("size", lambda: s.size(), np.size)
    for k in range(nd):
        if nd > 1:
            U("sum%d" % k, lambda k=k: s.sum(axis=k), lambda a, k=k: np.sum(a, axis=k))
    if not x.dynamic:
        n = int(np.prod(sh)) if sh else 1
        U("flat", lambda: s.reshape((n,)), lambda a: a.reshape(n))
        U("col", lambda: s.reshape(n, 1), lambda a: a.reshape(n, 1))
        if n % 2 == 0:
            U("two", lambda: s.reshape((2, n // 2)), lambda a: a.reshape(2, n // 2))
        if n == 1:
            U("scalarize", lambda: s.reshape(()), lambda a: a.reshape(()))
    # indexing
    if nd == 1:
        for nm, ix in (("[0]", 0), ("[-1]", -1), ("[1:]", slice(1, None)), ("[:-1]", slice(None, -1)), ("[::-1]", slice(None, None, -1)), ("[::2]", slice(None, None, 2)), ("[:]", slice(None))):
            U(nm, lambda ix=ix: s[ix], lambda a, ix=ix: a[ix])
    elif nd >= 2:
        for nm, ix in (("[0]", 0), ("[:,-1]", (slice(None), -1)), ("[1:]", slice(1, None)), ("[:,::-1]", (slice(None), slice(None, None, -1))), ("[-1,0]", (-1, 0)), ("[:,1:]", (slice(None), slice(1, None)))):
            U(nm, lambda ix=ix: s[ix], lambda a, ix=ix: a[ix])
    # against constants
    consts = [("2", np.float64(2)), ("-1.5", np.float64(-1.5)), ("0", np.float64(0))]
    if not x.dynamic and nd and 0 < int(np.prod(sh)) <= 8:
        consts.append(("arr", (np.arange(int(np.prod(sh))) - 1.0).reshape(sh)))
    for cn, c in consts:
        cs = m.constant(c)
        for bn, (mk, f, cont) in BINARY.items():
            if level < 2 and bn[0] == "f":
                continue
            U("%s%s" % (bn, cn), lambda mk=mk, cs=cs: mk(s, cs), lambda a, f=f, c=c: f(a, c), cont)
            if bn in ("sub", "div", "mod", "le", "ge", "fdiv", "fmod") or level >= 2:
                U("r%s%s" % (bn, cn), lambda mk=mk, cs=cs: mk(cs, s), lambda a, f=f, c=c: f(F(c), a), cont)
    two, half = m.constant(2), m.constant(-0.5)
    U("nadd", lambda: dm.add(s, two, s), lambda a: a + 2 + a)
    U("nmul", lambda: dm.multiply(s, half, s), lambda a: a * -0.5 * a)
    U("nmax", lambda: dm.maximum(s, half, two), lambda a: np.maximum(np.maximum(a, -0.5), 2))
    U("nmin", lambda: dm.minimum(half, two, s), lambda a: np.minimum(np.minimum(a, -0.5), 2))
    U("iadd", lambda: _iadd(s, two), lambda a: a + 4 + a)
    U("imul", lambda: _imul(s, two), lambda a: a * 4 * a)
    U("self+", lambda: s + s, lambda a: a + a)
    U("self-", lambda: s - s, lambda a: a - a)
    if nd >= 1:
        U("cat", lambda: dm.concatenate((s, s)), lambda a: np.concatenate((a, a)))
        if nd >= 2:
            U("cat1", lambda: dm.concatenate((s, s, -s), axis=1), lambda a: np.concatenate((a, a, -a), axis=1))
    if not x.dynamic and nd:
        c = np.full(sh, 0.5)
        cs = m.constant(c)
        cond = dm.logical(s)
        U("where", lambda: dm.where(cond, s, cs), lambda a: np.where(a != 0, a, 0.5), False)
        c7 = m.constant(np.full(sh, 7))
        U("where0", lambda: dm.where(m.constant(1), s, c7), lambda a: a, False)
        U("where1", lambda: dm.where(s.any(), c7, s), lambda a: F(np.full(a.shape, 7.0)) if np.any(a) else a, False)
    table1 = m.constant([5, -1, 0.5, 3])
    U("tab", lambda: table1[s], lambda a: F([5, -1, 0.5, 3])[a.astype(int)], False)
    if nd <= 1:
        t2 = F([[1, 2, 3], [4, 5, 6], [7, 8, -9], [0, 1, -1]])
        tc = m.constant(t2)
        U("row", lambda: tc[s, :], lambda a: t2[a.astype(int), :], False)
        U("pair", lambda: tc[:3, :][s, s], lambda a: t2[a.astype(int), a.astype(int)], False)
        U("coln", lambda: tc[1:, :][:, s] if not x.dynamic else tc[-1, :][s], lambda a: t2[1:, :][:, a.astype(int)] if not x.dynamic else t2[-1, :][a.astype(int)], False)
        if nd == 1 and not x.dynamic and sh[0] >= 1:
            n = sh[0]
            q = {(i, j): (i + 1.0) * (1 if i == j else -2 + j) for i in range(n) for j in range(i, n)}
            lin = {i: 0.5 * i for i in range(n)}
            Q = np.zeros((n, n))
            for (i, j), v in q.items():
                Q[i, j] += v
            b = F([lin[i] for i in range(n)])
            U("qm", lambda: m.quadratic_model(s, q, lin), lambda a: a @ Q @ a + b @ a)
        if nd == 1 and not x.dynamic and isinstance(s, ds.ListVariable):
            n = sh[0]
            P = F([[i * n + j for j in range(n)] for i in range(n)]).reshape(n, n)
            pc = m.constant(P)
            U("perm", lambda: pc[s, :][:, s], lambda a: P[a.astype(int), :][:, a.astype(int)], False)
            U("perm2", lambda: pc[:, s][s, :], lambda a: P[a.astype(int), :][:, a.astype(int)], False)


ALWAYS = {"abs", "neg", "sq", "pow1", "logical", "not", "all", "any", "sum", "prod", "sqrtabs", "size"}
STATIC = {"max", "min", "cube", "self+", "self-", "cat", "cat1", "where", "where0", "where1", "sum0", "sum1", "sum2"}


def well_formed(x, name):
    """Whether the operator called `name` is plainly applicable to x, so that building it must succeed."""
    if name in ALWAYS:
        return True
    if not x.dynamic and 0 not in x.shape and name in STATIC:
        return True
    for cn in ("-1.5", "2", "0"):
        if name.endswith(cn) and name[:-len(cn)] in BINARY:  # against a constant scalar
            return not name[:-len(cn)].endswith("div") or cn != "0"
    return False


class Family:
    """A decision with operators attached in one model, each with a reference."""

    def __init__(self, dec, depth=1, first=None, level=2, model=None):
        self.dec = dec
        self.model = m = model or Model()
        self.main, arrays = dec.build(m)
        self.roots = [Val(a, lambda e, i=i: e[i], "%s#%d" % (dec.name, i)) for i, a in enumerate(arrays)]
        self.vals = list(self.roots)
        self.refused = []
        self.wrongly = []
        for root in self.roots[:2]:
            lvl = []
            self._attach(root, lvl, level, first)
            if depth > 1:
                for v in lvl:
                    self._attach(v, [], 1, None)

    def _attach(self, x, out, level, only):
        def visit(name, make, ref, cont, rounds):
            if only is not None and not only(name):
                return
            if not x.exact and (not cont or rounds):
                return
            try:
                s = make()
            except (ValueError, TypeError, IndexError) as e:
                self.refused.append((x.name + "." + name, str(e)))
                if well_formed(x, name):
                    self.wrongly.append(self.refused[-1])
                return
            v = Val(s, ref, x.name + "." + name, x.exact and not rounds)
            self.vals.append(v)
            out.append(v)

        apply_ops(self.model, x, visit, level)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a == b).all() if tol == 0 else a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * np.maximum(1, np.abs(b))) | (np.isnan(a) & np.isnan(b))))
