"""C15: every index over small shapes against NumPy, at build time (shape, refusal) and for every assignment (values)."""
import itertools

import numpy as np

import runner
from dwave.optimization import Model
from dwave.optimization import symbols as ds

REFUSAL = (ValueError, TypeError, IndexError, OverflowError)
REFUSED = object()
OPTS = (None, 0, 1, 2, 3, 7, -1, -2, -4, -9)
SLICES = [slice(a, b, s) for a in OPTS for b in OPTS for s in (None, 1, 2, 3, 8)]
ODD = [slice(a, b, s) for a in (None, 0, 2, -1) for b in (None, 0, 2, -4) for s in (-1, -2, 0)]
FEW = [slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(1, 2), slice(-2, 9), slice(2, 1), slice(-9, 2, 3)]
INTS = list(range(-5, 5))
BIG = [2**31, -2**31, 2**62, -2**62]


def attempt(fn):
    try:
        return fn()
    except REFUSAL as e:
        return REFUSED if not isinstance(e, RecursionError) else None


def numpy_of(a, ix):
    try:
        return a[ix]
    except (IndexError, ValueError):
        return REFUSED


def fresh(shape, const):
    m = Model()
    n = int(np.prod(shape))
    a = np.arange(10.0, 10.0 + n).reshape(shape)
    x = m.constant(a) if const else m.integer(shape, 0, 99)
    return m, x, a


def verify(c, m, x, a, made, const):
    """Compare the built symbols with NumPy, for two contents of the array."""
    for rnd in (0, 1) if not const else (0,):
        m.states.resize(1)
        with m.lock():
            b = a if rnd == 0 else a[::-1].copy() + 20 if a.ndim else a + 20
            if not const:
                x.set_state(0, b)
            for ix, s, f in made:
                want = f(b)
                got = s.state(0)
                c.check(got.shape == want.shape and np.array_equal(got, want), "value", lambda: "%s[%s] is %s (shape %s), NumPy says %s (shape %s)" % (a.shape, ix, got.tolist(), got.shape, np.asarray(want).tolist(), want.shape))
                c.check(s.shape() == want.shape and s.ndim() == want.ndim and s.size() == want.size, "shape", lambda: "%s[%s] has shape %s, size %s; NumPy says %s" % (a.shape, ix, s.shape(), s.size(), want.shape))
                c.transitions += 1
        m.states.clear()


def basic_case(shape, const, indices, name):
    def run(c):
        m, x, a = fresh(shape, const)
        made = []
        for ix in indices():
            c.at("%s%s[%s]" % (name, shape, ix))
            want = numpy_of(a, ix)
            got = attempt(lambda: x[ix])
            ixs = ix if isinstance(ix, tuple) else (ix,)
            unsupported = any(isinstance(i, slice) and i.step is not None and i.step < 0 for i in ixs)
            if got is REFUSED:
                c.check(want is REFUSED or unsupported, "refused", lambda: "%s[%s] is refused; NumPy has shape %s" % (shape, ix, want.shape))
            elif want is REFUSED:
                c.fail("accepted", "%s[%s] is accepted (shape %s); NumPy refuses it" % (shape, ix, got.shape()))
            else:
                made.append((ix, got, lambda b, ix=ix: np.asarray(b[ix])))
            c.states += 1
            if c.stop:
                return
            if len(made) >= 400:
                verify(c, m, x, a, made, const)
                m, x, a = fresh(shape, const)
                made = []
        verify(c, m, x, a, made, const)
        c.traces += 1
    return run


def chain_case(shape, first, const):
    """An index applied to an index; slices of slices."""
    def run(c):
        m, x, a = fresh(shape, const)
        y = attempt(lambda: x[first])
        w = numpy_of(a, first)
        if y is REFUSED or w is REFUSED:
            return
        made = []
        opts = INTS[2:-1] + FEW if w.ndim < 3 else [0, -1, 5] + FEW[:4]
        for k in range(0, w.ndim + 2):
            for ix in itertools.product(opts, repeat=k):
                c.at("%s[%s][%s]" % (shape, first, ix))
                want = numpy_of(w, ix)
                got = attempt(lambda: y[ix])
                if got is REFUSED:
                    # views that are not contiguous cannot be indexed again
                    c.check(want is REFUSED or not plain(first, shape), "refused", lambda: "%s[%s][%s] is refused" % (shape, first, ix))
                elif want is REFUSED:
                    c.fail("accepted", "%s[%s][%s] is accepted; NumPy refuses it" % (shape, first, ix))
                else:
                    made.append(("%s][%s" % (first, ix), got, lambda b, ix=ix: np.asarray(b[first][ix])))
                c.states += 1
                if c.stop:
                    return
        verify(c, m, x, a, made, const)
        c.traces += 1
    return run


def plain(first, shape):
    """Is the view contiguous beyond doubt: leading integers, or one slice of step one, then full slices?"""
    ixs = list(first) if isinstance(first, tuple) else [first]
    while ixs and isinstance(ixs[0], int):
        ixs.pop(0)
    if ixs and isinstance(ixs[0], slice) and ixs[0].step in (None, 1):
        ixs.pop(0)
    return all(i == slice(None) for i in ixs)


# ------------------------------------------------------------------ advanced and combined

class Idx:
    """An index symbol with its states."""

    def __init__(self, name, make, states, arr=lambda s: np.asarray(s, dtype=int), lo=0, hi=1, dynamic=False):
        self.name, self.make, self.states, self.arr, self.lo, self.hi, self.dynamic = name, make, states, arr, lo, hi, dynamic

    def __repr__(self):
        return self.name


def ivar(shape, hi, name, lo=0):
    n = int(np.prod(shape))
    vals = [np.asarray(t).reshape(shape) for t in itertools.product(range(lo, hi + 1), repeat=n)]
    return Idx(name, lambda m: m.integer(shape, lo, hi), vals[:: max(1, len(vals) // 4)] + vals[-1:], lo=lo, hi=hi)


def indices():
    return [ivar((), 1, "i"), ivar((2,), 1, "v"), ivar((2,), 2, "v3"), ivar((3,), 1, "w"), ivar((1,), 1, "u"), ivar((2, 2), 1, "m"),
            Idx("b", lambda m: m.binary((2,)), [np.array(t) for t in ((0, 0), (0, 1), (1, 1))]),
            Idx("b0", lambda m: m.binary(), [np.array(0), np.array(1)]),
            Idx("k", lambda m: m.constant([1, 0]), [np.array([1, 0])]),
            Idx("kf", lambda m: m.constant([0.5, 1]), [np.array([0.5, 1])], lo=None),
            Idx("kn", lambda m: m.constant([-1, 0]), [np.array([-1, 0])], lo=-1),
            Idx("l", lambda m: m.list(2), [np.array([0, 1]), np.array([1, 0])]),
            Idx("l3", lambda m: m.list(3), [np.array(p) for p in ((0, 1, 2), (2, 0, 1), (1, 2, 0))], hi=2),
            Idx("s", lambda m: m.set(2), [[], [1], [0], [0, 1], [1, 0]], dynamic=True),
            Idx("neg", lambda m: m.integer((2,), -1, 0), [np.array([0, 0])], lo=-1, hi=0),
            Idx("big", lambda m: m.integer((2,), 0, 9), [np.array([0, 0])], hi=9)]


def mixed_case(shape, tup, const):
    """A tuple of index symbols (by position in the list), integers and slices."""
    def run(c):
        I = {k.name: k for k in indices()}
        for late in (False, True):
            m, x, a = fresh(shape, const)
            syms = {}
            ixs, fns = [], []
            for t in tup:
                if isinstance(t, str):
                    if t not in syms:
                        syms[t] = I[t].make(m)
                    ixs.append(syms[t])
                else:
                    ixs.append(t)
            used = [I[t] for t in tup if isinstance(t, str)]
            full = list(tup) + [slice(None)] * (len(shape) - len(tup))
            c.at("%s%s" % (shape, list(tup)))
            c.states += 1
            got = attempt(lambda: x[tuple(ixs)])
            mid = x
            if late and got is not REFUSED:
                break
            # must it be refused?
            bad = len(tup) > len(shape)
            dim = 0
            for t in tup[:len(shape)]:
                if isinstance(t, str):
                    k = I[t]
                    n = shape[dim]
                    others = [u for u in tup if isinstance(u, slice)]
                    bad = bad or k.lo is None or k.lo < 0 or k.hi >= n
                elif isinstance(t, int):
                    bad = bad or not -shape[dim] <= t < shape[dim]
                dim += 1
            if got is REFUSED:
                shapes = {u.states[0].shape if not u.dynamic else "dyn" for u in used}
                names = {u.name for u in used if u.dynamic}
                simple = (len(shapes) == 1 and len(names) <= 1 and all(not u.dynamic and u.states[0].ndim <= 1 for u in used) and not any(isinstance(t, int) for t in tup)
                          and adjacent(full) and all(t == slice(None) for t in tup if isinstance(t, slice)))
                c.check(bad or not simple, "refused", lambda: "%s%s is refused" % (shape, list(tup)))
                return
            if not c.check(not bad, "accepted", lambda: "%s%s is accepted although the index may be out of range" % (shape, list(tup))):
                return
            m.states.resize(1)
            names = sorted({u.name for u in used})
            with m.lock():
                for combo in itertools.product(*[I[n].states for n in names]):
                    val = dict(zip(names, combo))
                    for n in names:
                        if n not in ("k", "kf", "kn"):
                            syms[n].set_state(0, val[n])
                    if not const:
                        x.set_state(0, a + len(names))
                    b = a if const else a + len(names)
                    want = b[tuple(np.asarray(val[t], dtype=int) if isinstance(t, str) else t for t in tup)]
                    s = got.state(0)
                    kind = "value"
                    if any(isinstance(t, int) for t in tup) and not together(full):
                        # the integer is applied first, then the arrays: NumPy moves the arrays' dimension to the front
                        two = b[tuple(slice(None) if isinstance(t, str) else t for t in full)][tuple(np.asarray(val[t], dtype=int) if isinstance(t, str) else slice(None) for t in full if not isinstance(t, int))]
                        if s.shape == two.shape and np.array_equal(s, two):
                            kind = "separated integer"
                    c.check(s.shape == want.shape and np.array_equal(s, want), kind, lambda: "%s%s at %s is %s (shape %s); NumPy says %s (shape %s)" % (shape, list(tup), val, s.tolist(), s.shape, want.tolist(), want.shape))
                    st = got.shape()
                    c.check(len(st) == len(want.shape) and all(p == q or p == -1 and k == 0 for k, (p, q) in enumerate(zip(st, want.shape))) or kind != "value", "shape", lambda: "%s%s has shape %s; NumPy says %s" % (shape, list(tup), st, want.shape))
                    c.transitions += 1
                    if c.stop:
                        return
            c.traces += 1
            return
    return run


def adjacent(full):
    """Are the index arrays next to each other?"""
    p = [k for k, t in enumerate(full) if isinstance(t, str)]
    return not p or p[-1] - p[0] == len(p) - 1


def together(full):
    """Are all indices that NumPy treats as advanced (arrays, and integers among them) next to each other?"""
    p = [k for k, t in enumerate(full) if isinstance(t, (str, int))]
    return p[-1] - p[0] == len(p) - 1


def mixed_group(shape, tups, const):
    def run(c):
        for t in tups:
            mixed_case(shape, t, const)(c)
            if c.stop:
                return
    return run


# ------------------------------------------------------------------ two advanced indexings in a row (and the permutation shortcut)

def double_case(n, order, names, const):
    def run(c):
        I = {k.name: k for k in indices()}
        for first, second in itertools.product(order, repeat=2):
            m = Model()
            a = np.arange(10.0, 10.0 + n * n).reshape(n, n)
            x = m.constant(a) if const else m.integer((n, n), 0, 99)
            syms = {k: I[k].make(m) for k in names}

            def tupl(pos, name, table):
                return (table[name], slice(None)) if pos == 0 else (slice(None), table[name]) if pos == 1 else (table[name],)
            n1, n2 = names[0], names[-1]
            c.at("(%d, %d)%s %s then %s" % (n, n, names, first, second))
            c.states += 1
            y = attempt(lambda: x[tupl(first, n1, syms)])
            if y is REFUSED:
                continue
            z = attempt(lambda: y[tupl(second, n2, syms)])
            if z is REFUSED:
                k1, k2 = I[n1], I[n2]
                sh = y.shape()
                if k2.lo is not None and k2.lo >= 0 and not k1.dynamic and not k2.dynamic and k2.states[0].ndim <= 1:
                    ax = second if second < 2 else 0
                    ok = ax < len(sh) and k2.hi < sh[ax] and (second == 2 or len(sh) == 2)
                    c.check(not ok, "refused", lambda: "%s of shape %s indexed by %s (position %d) and then by %s (position %d) is refused" % ("constant" if const else "integer", a.shape, n1, first, n2, second), (n1, n2))
                continue
            m.states.resize(1)
            with m.lock():
                for combo in itertools.product(*[I[k].states for k in sorted(set(names))]):
                    val = dict(zip(sorted(set(names)), combo))
                    for k in val:
                        if k != "k":
                            syms[k].set_state(0, val[k])
                    if not const:
                        x.set_state(0, a)
                    arrs = {k: np.asarray(v, dtype=int) for k, v in val.items()}
                    want = a[tupl(first, n1, arrs)][tupl(second, n2, arrs)]
                    got = z.state(0)
                    c.check(got.shape == want.shape and np.array_equal(got, want), "value", lambda: "%s: %s at %s is %s; NumPy says %s" % (c.last, type(z).__name__, val, got.tolist(), want.tolist()))
                    c.transitions += 1
            c.traces += 1
    return run


# ------------------------------------------------------------------ dynamic arrays

def dynamic_bases(m):
    s = m.set(3)
    d, ls = m.disjoint_lists(3, 2)
    t = m.constant(np.arange(12.0).reshape(3, 4))
    t3 = m.constant(np.arange(24.0).reshape(3, 4, 2))
    T, T3 = np.arange(12.0).reshape(3, 4), np.arange(24.0).reshape(3, 4, 2)
    return s, d, [("s", s, lambda a, b: a), ("t[s]", t[s, :], lambda a, b: T[a, :]), ("l1", ls[1], lambda a, b: b[1]), ("t3[l0]", t3[ls[0], :, :], lambda a, b: T3[b[0], :, :]),
                  ("s+0", s + m.constant(0), lambda a, b: a), ("t[s].T", t.reshape(4, 3)[:, 1][m.list(4)], None)]


def dynamic_case(which, k, of):
    def run(c):
        full = [slice(None)]
        for n, ix0 in enumerate(SLICES + ODD + INTS[3:8]):
            if n % of != k:
                continue
            m = Model()
            s, d, bases = dynamic_bases(m)
            name, base, f = bases[which]
            rest = [()] if base.ndim() == 1 else [(), (1,), (-1,), (slice(1, None, 2),), (slice(9, 1),), (4,)] if base.ndim() == 2 else [(), (slice(None), 0), (2, 1), (slice(1, 3), slice(None, 1)), (0,)]
            made = []
            for r in rest:
                ix = (ix0,) + r
                c.at("%s[%s]" % (name, ix))
                got = attempt(lambda: base[ix])
                ref = f(np.array([0, 1, 2]), [np.array([0, 1, 2])] * 2)
                bad = isinstance(ix0, int) or ix0.step is not None and ix0.step <= 0 or numpy_of(ref, (slice(None),) + r) is REFUSED
                c.states += 1
                if got is REFUSED:
                    c.check(bad, "refused", lambda: "%s[%s] is refused" % (name, ix))
                    continue
                if not c.check(not bad, "accepted", lambda: "%s[%s] is accepted" % (name, ix)):
                    return
                made.append((ix, got))
            m.states.resize(1)
            with m.lock():
                for sv, dv in (([], [[], [2, 1, 0]]), ([2], [[0], [1, 2]]), ([0, 2], [[2, 0], [1]]), ([1, 2, 0], [[0, 2, 1], []])):
                    s.set_state(0, sv)
                    d.set_state(0, dv)
                    a, b = np.asarray(sv, dtype=int), [np.asarray(v, dtype=int) for v in dv]
                    src = f(a, b)
                    for ix, y in made:
                        want, got = src[ix], y.state(0)
                        c.check(got.shape == want.shape and np.array_equal(got, want), "value", lambda: "%s[%s] at %s %s is %s; NumPy says %s" % (name, ix, sv, dv, got.tolist(), want.tolist()))
                        c.check(len(y.shape()) == want.ndim and tuple(y.shape()[1:]) == want.shape[1:], "shape", lambda: "%s[%s] has shape %s; NumPy says %s" % (name, ix, y.shape(), want.shape))
                        c.transitions += 1
            c.traces += 1
            if c.stop:
                return
    return run


def dynamic_index_case(which):
    """A dynamic array indexed by arrays: only indices below its minimum size are safe."""
    def run(c):
        for lo in range(-1, 3):
            for mn in range(0, 4):
                for hi in range(max(lo, 0), 4):
                    for shape in ((), (2,)):
                        m = Model()
                        s = m.set(3, min_size=mn)
                        t = m.constant(np.arange(12.0).reshape(3, 4))
                        base = s if which == 0 else t[s, :] if which == 1 else s + m.constant(1)
                        i = m.integer(shape, lo, hi)
                        c.at("base %d with at least %d elements indexed by %s..%s %s" % (which, mn, lo, hi, shape))
                        got = attempt(lambda: base[i] if which != 1 else base[i, :])
                        c.states += 1
                        safe = lo >= 0 and hi < mn
                        if got is REFUSED:
                            c.check(not safe, "refused", c.last + " is refused")
                            continue
                        if not c.check(safe, "accepted", c.last + " is accepted"):
                            continue
                        m.states.resize(1)
                        with m.lock():
                            for k in range(mn, 4):
                                for sv in itertools.permutations(range(3), k):
                                    for iv in itertools.product(range(lo, hi + 1), repeat=int(np.prod(shape))):
                                        s.set_state(0, sv)
                                        ia = np.asarray(iv, dtype=int).reshape(shape)
                                        i.set_state(0, ia)
                                        src = np.asarray(sv) if which == 0 else np.arange(12.0).reshape(3, 4)[list(sv), :] if which == 1 else np.asarray(sv) + 1
                                        want, g = src[ia], got.state(0)
                                        c.check(np.array_equal(g, want) and g.shape == want.shape, "value", lambda: c.last + " at %s, %s is %s" % (sv, iv, g.tolist()))
                                        c.transitions += 1
        c.traces += 1
    return run


# ------------------------------------------------------------------ things that are no index

def strange_case(shape):
    def run(c):
        m, x, a = fresh(shape, False)
        other = Model()
        foreign = other.integer((2,), 0, 0)
        q = m.disjoint_lists(2, 1)[0]
        for z in (1.0, 0.5, "0", None, Ellipsis, [0], np.array([0]), np.array(0), {}, 1j, float("nan"), foreign, q, object(), slice("a"), slice(0.5), slice(None, 1.5), slice(None, None, "x"), m, (0,) * 9, b"0"):
            for pos in range(max(1, len(shape))):
                ix = tuple([0] * pos + [z])
                c.at("%s[%s]" % (shape, ix,))
                n = m.num_symbols()
                got = attempt(lambda: x[ix])
                c.states += 1
                c.transitions += 1
                ok = got is REFUSED
                if not ok:
                    want = attempt(lambda: numpy_of(a, ix))
                    ok = want is not REFUSED and want is not None and got.shape() == want.shape
                c.check(ok, "accepted", lambda: "%s[%r] is accepted" % (shape, ix))
                c.check(got is not REFUSED or m.num_symbols() - n <= 1, "refused leaves", "a refused index adds symbols")
        for z in BIG:
            for ix in (z, slice(z), slice(z, None), slice(None, None, abs(z)), slice(-z, z)):
                c.at("%s[%s]" % (shape, ix))
                want = numpy_of(a, ix)
                got = attempt(lambda: x[ix])
                c.states += 1
                if want is REFUSED or got is REFUSED:
                    c.check(want is REFUSED and got is REFUSED, "accepted" if want is REFUSED else "refused", lambda: "%s[%s]" % (shape, ix))
                else:
                    c.check(got.shape() == want.shape, "shape", lambda: "%s[%s] has shape %s; NumPy says %s" % (shape, ix, got.shape(), want.shape))
        c.traces += 1
    return run


def make_cases(prop, tier):
    thorough = tier == "thorough"
    cases = []
    for const in (True, False):
        for n in range(0, 5):
            cases.append(("basic/%d/%s" % (n, const), basic_case((n,), const, lambda: SLICES + ODD + INTS + [()] + [(i, 0) for i in INTS], "")))
        for shape in ((2, 3), (3, 1), (1, 2), (2, 0), (0, 2), (4, 4)):
            for h in range(4):
                part = (SLICES[h::4] + INTS[h::4]) if thorough else (SLICES[h::4][::3] + INTS[h::4])
                cases.append(("basic2/%s/%s/%d" % (shape, const, h), basic_case(shape, const, lambda part=part: itertools.chain(((p, q) for p in part for q in INTS + FEW), ((q, p) for p in part for q in INTS + FEW), part), "")))
        for shape in ((2, 3, 2), (1, 2, 3), (2, 2, 2, 2)):
            opts = [0, 1, -1, -2, 2, -3] + FEW[:6] if len(shape) == 3 else [0, -1, 2] + FEW[:4]
            for h, p in enumerate(opts):
                cases.append(("basic3/%s/%s/%d" % (shape, const, h), basic_case(shape, const, lambda p=p, opts=opts, shape=shape: ((p,) + q for k in range(len(shape) + 1) for q in itertools.product(opts, repeat=k)), "")))
        for shape in ((5,), (3, 4), (2, 3, 2)):
            firsts = [1, -1, 0] + SLICES[::7] if len(shape) == 1 else [t for k in (1, 2) for t in itertools.product([0, -1] + FEW[:6], repeat=k)]
            for f in firsts:
                cases.append(("chain/%s/%s/%s" % (shape, f, const), chain_case(shape, f, const)))
    names = [k.name for k in indices()]
    other = [0, -1, 2, -4, slice(None), slice(1, None), slice(None, None, 2)]
    for const in (True, False):
        for shape in ((2,), (3,), (2, 2), (3, 2), (2, 3, 2), (3, 3, 3)) + (((2, 2, 2, 3),) if thorough else ()):
            alpha = names + other if len(shape) <= 2 else ["i", "v", "b", "l", "s", "w", "neg"] + [0, -1, slice(None), slice(1, None)] if len(shape) == 3 else ["i", "v", "l", "s"] + [0, slice(None), slice(1, None)]
            tups = [t for k in range(1, len(shape) + 1) for t in itertools.product(alpha, repeat=k) if any(isinstance(u, str) for u in t)]
            tups += [("v",) * (len(shape) + 1), ("i",) * len(shape) + (0,)]
            groups = max(1, len(tups) // 60)
            for g in range(groups):
                cases.append(("mixed/%s/%s/%d" % (shape, const, g), mixed_group(shape, tups[g::groups], const)))
        for n in (2, 3):
            for p in itertools.product(["i", "v", "w", "u", "b", "k", "l", "l3", "s", "v3"], repeat=2):
                cases.append(("double/%d/%s/%s" % (n, "-".join(p), const), double_case(n, (0, 1, 2), p, const)))
                if p[0] == p[1]:
                    cases.append(("same/%d/%s/%s" % (n, p[0], const), double_case(n, (0, 1, 2), [p[0]], const)))
    for w in range(5):
        for k in range(8):
            cases.append(("dynamic/%d/%d" % (w, k), dynamic_case(w, k, 8)))
    for w in range(3):
        cases.append(("dynidx/%d" % w, dynamic_index_case(w)))
    for shape in ((), (2,), (2, 2), (1, 2, 3)):
        cases.append(("strange/%s" % (shape,), strange_case(shape)))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
