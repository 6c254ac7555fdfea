"""C07: every candidate value (members and non-members of the domain) assigned to every kind of decision variable.

After every assignment everything else in the model - the other variables, the other state index, the symbols that do not
depend on the variable - must read as before, whether the value was accepted or refused.
"""
import collections.abc
import itertools

import numpy as np

import lib
import runner
from dwave.optimization import Model

REFUSAL = (ValueError, TypeError, IndexError, OverflowError)


def seqs(letters, maxlen):
    for k in range(maxlen + 1):
        yield from (list(t) for t in itertools.product(letters, repeat=k))


def array_forms(a):
    """The same integers, in every way an array can hold them."""
    a = np.asarray(a)
    if a.dtype == object or a.size == 0 and a.ndim > 1:
        return
    a = a.astype(np.int64)
    yield a
    yield np.asfortranarray(a)
    yield a.astype(float)
    r = a.copy()
    r.setflags(write=False)
    yield r
    if a.size and abs(a).max() < 2 ** 31:
        yield a.astype(">i4")
    if a.size and abs(a).max() < 100:
        yield a.astype(np.int8)
    if a.size and a.min() >= 0 and a.max() < 200:
        yield a.astype(np.uint8)
    if a.size and a.min() >= 0 and a.max() <= 1:
        yield a.astype(bool)
    if a.ndim:
        yield np.repeat(a, 2, axis=-1)[..., ::2]
        yield a[::-1].copy()[::-1]
        yield a[..., ::-1].copy()[..., ::-1]
        if not a.size or abs(a).max() < 2 ** 31:
            yield np.asfortranarray(np.repeat(a, 2, axis=0).astype(np.int32))[::2]


NOT_NUMBERS = (float("nan"), float("inf"), -float("inf"), 1e300, -1e300, 2 ** 62, 2 ** 63, -2 ** 63, 2 ** 64 - 1, 2 ** 70, None, "x", object(), [], {}, np.float32("nan"), np.uint64(2 ** 64 - 1), np.uint64(2 ** 63))


def replaced(v, b):
    """The value with b in the place of one of its numbers, for every place."""
    if not isinstance(v, list):
        yield b
        return
    for i, x in enumerate(v):
        for y in replaced(x, b):
            yield v[:i] + [y] + v[i + 1:]


def odd(v):
    """The value with one of its numbers replaced by what no variable can take, as lists and as arrays."""
    v = np.asarray(v).tolist() if isinstance(v, np.ndarray) else v
    for b in NOT_NUMBERS:
        ws = list(replaced(v, b))
        for w in ws if len(ws) <= 12 else [ws[k] for k in (0, 1, len(ws) // 2, -2, -1)]:
            yield w
            if isinstance(b, (int, float, np.generic)):
                try:
                    yield np.asarray(w)  # uint64, float64 or objects, as NumPy takes them
                    yield np.asarray(w, dtype=object)
                    if isinstance(b, np.uint64) or type(b) is int and 0 < b < 2 ** 64:
                        yield np.asarray(w, dtype=np.uint64)
                    if isinstance(b, float):
                        yield np.asarray(w, dtype=np.float32)
                except (ValueError, OverflowError):  # lists of different lengths, numbers that do not fit
                    pass


def tuples(v):
    return tuple(tuples(x) for x in v) if isinstance(v, list) else v


def forms(v, kind):
    """The given value (nested lists) and everything that stands for the same value."""
    yield v
    if isinstance(v, np.ndarray):
        v = v.tolist()
        yield v
    if not isinstance(v, list):
        yield from array_forms(v)
        yield np.int64(v)
        yield np.float64(v)
        return
    yield tuples(v)
    if kind.unordered and len(set(v)) == len(v):
        yield set(v)
        yield frozenset(v)
        yield dict.fromkeys(v).keys()
    if kind.parts:
        for fs in zip(*(array_forms(b) for b in v)):
            yield list(fs)
        yield [tuple(b) for b in v]
        if v and len({len(b) for b in v}) == 1:
            yield np.asarray(v, dtype=int)
    else:
        yield from array_forms(v)


class Kind:
    unordered = parts = False

    def __init__(self, dec, cands, member):
        self.dec, self.cands, self.member = dec, cands, member
        self.name = dec.name


def numeric(dec, shape, lo, hi, extra=(), full=True):
    n = int(np.prod(shape)) if shape else 1
    letters = list(range(lo - 1, hi + 2))
    if not full:
        letters = [lo - 1, lo, hi, hi + 1]

    def cands():
        for t in itertools.product(letters, repeat=n):
            yield lib.nested(t, shape), all(lo <= x <= hi for x in t)
        for bad in (lo - 10 ** 6, hi + 10 ** 6, -2 ** 40, 2 ** 40, 2 ** 62) + tuple(extra):
            for i in range(n):
                t = [lo] * n
                t[i] = bad
                yield lib.nested(t, shape), False
        for k in (0, n - 1, n + 1, 2 * n + 1):
            if k >= 0 and k != n:
                yield np.asarray([lo] * k, dtype=int), False

    return Kind(dec, cands, lambda v: all(lo <= x <= hi and x == int(x) for x in np.asarray(v[0]).reshape(-1)) and np.asarray(v[0]).shape == tuple(shape))


def coll(dec, n, lo, hi, ordered):
    def ok(t):
        return lo <= len(t) <= hi and len(set(t)) == len(t) and all(0 <= x < n for x in t)

    def cands():
        for t in seqs(range(-1, n + 1), n + 1):
            yield t, ok(t)
        for bad in (2 ** 40, -2 ** 40, 2 ** 53):
            for i in range(hi):
                t = list(range(hi))
                t[i] = bad
                yield t, False

    k = Kind(dec, cands, lambda v: ok([int(x) for x in v[0]]) and v[0].ndim == 1)
    k.unordered = not ordered
    return k


def dl(n, k, letters):
    def ok(ls):
        return len(ls) == k and sorted(x for b in ls for x in b) == list(range(n))

    def cands():
        one = list(seqs(letters, n))
        for t in itertools.product(one, repeat=k):
            yield [list(b) for b in t], ok(t)
        for kk in (0, k - 1, k + 1):
            if kk != k and kk >= 0:
                base = [list(range(n))] + [[] for _ in range(kk - 1)] if kk else []
                yield base, ok(base)

    kind = Kind(lib.dlists(n, k), cands, lambda v: ok([[int(x) for x in b] for b in v]))
    kind.parts = True
    return kind


def db(n, k):
    def ok(m):
        return m.shape == (k, n) and (m.sum(axis=0) == 1).all()

    def cands():
        for rows, cols in {(k, n), (k + 1, n), (k, n + 1), (max(1, k - 1), n), (k, max(1, n - 1))}:
            if rows * cols <= 9:
                for t in itertools.product((0, 1), repeat=rows * cols):
                    m = np.asarray(t).reshape(rows, cols)
                    yield m.tolist(), ok(m)
        if n * k <= 6:  # numbers that are neither 0 nor 1 are not members of a set
            for t in itertools.product((0, 1, 2, -1), repeat=n * k):
                if set(t) - {0, 1}:
                    yield np.asarray(t).reshape(k, n).tolist(), False

    return Kind(lib.dbits(n, k), cands, lambda v: ok(np.asarray(v)))


def large():
    """Variables of tens of elements: a few members of the domain, and each of them spoilt at every place."""
    def spoilt(t, bads):
        for i in range(len(t)):
            for b in bads:
                yield t[:i] + [b] + t[i + 1:]

    n = 70
    up = list(range(n))
    perms = [up, up[::-1], up[33:] + up[:33], [i * 27 % n for i in up]]

    def lists():
        for t in perms:
            yield t, True
            for w in spoilt(t, (-1, n, n + 186)):
                yield w, False
            for d in (1, 2, 31, 69):
                for i in range(n):
                    yield t[:i] + [t[i - d]] + t[i + 1:], False
            yield t[1:], False
            yield t + [n], False
            yield t + [0], False

    yield Kind(lib.Dec("list(70)", lambda m: m.list(n), perms), lists, lambda v: sorted(v[0].tolist()) == up)

    sets = [t[:k] for k in (2, 3, 31, 64, 66) for t in perms]

    def subsets():
        for t in sets:
            yield t, True
            for w in spoilt(t, (-1, n)):
                yield w, False
            for d in (1, 5):
                for i in range(len(t)):
                    yield t[:i] + [t[(i - d) % len(t)]] + t[i + 1:], d % len(t) == 0
        for t in perms:
            for k in (0, 1, 67, 68, 70):
                yield t[:k], False

    k = Kind(lib.Dec("set(70,2,66)", lambda m: m.set(n, 2, 66), sets), subsets, lambda v: 2 <= len(v[0]) <= 66 and len(set(v[0].tolist())) == len(v[0]) and set(v[0].tolist()) <= set(up))
    k.unordered = True
    yield k

    def numbers(name, shape, lo, hi, make):
        size = int(np.prod(shape))
        vals = [[lo + (i * a + b) % (hi - lo + 1) for i in range(size)] for a in (0, 1, 7) for b in (0, 1)]

        def cands():
            for t in vals:
                yield lib.nested(t, shape), True
                for w in spoilt(t, (lo - 1, hi + 1, hi + 256, lo - 2 ** 32)):
                    yield lib.nested(w, shape), False
                yield np.asarray(t[1:]), False
                yield np.asarray(t + t[:1]), False

        return Kind(lib.Dec(name, make, [lib.nested(t, shape) for t in vals]), cands, lambda v: v[0].shape == shape and ((lo <= v[0]) & (v[0] <= hi)).all() and (v[0] == np.trunc(v[0])).all())

    yield numbers("binary(9, 8)", (9, 8), 0, 1, lambda m: m.binary((9, 8)))
    yield numbers("integer(70,)", (70,), -300, 40000, lambda m: m.integer(70, lower_bound=-300, upper_bound=40000))
    yield numbers("integer(2, 3, 4, 3)", (2, 3, 4, 3), 7, 9, lambda m: m.integer((2, 3, 4, 3), lower_bound=7, upper_bound=9))

    parts = [[[i for i in range(20) if i * a % 9 == j] for j in range(9)] for a in (0, 1, 2, 3)] + [[[] for _ in range(8)] + [list(range(19, -1, -1))]]

    def partitions():
        for t in parts:
            yield t, True
            for j, b in enumerate(t):
                for w in () if not b else spoilt(b, (-1, 20, t[(j + 1) % 9][0] if t[(j + 1) % 9] else 21, b[0] - 1)):
                    yield t[:j] + [w] + t[j + 1:], sorted(x for q in t[:j] + [w] + t[j + 1:] for x in q) == list(range(20))
                for i in range(len(b)):
                    yield t[:j] + [b[:i] + b[i + 1:]] + t[j + 1:], False
            yield t + [[]], False
            yield t[:-1], False

    d = lib.dlists(1, 1)
    k = Kind(lib.Dec("dlists(20,9)", lambda m: (lambda r: (r[0], list(r[1])))(m.disjoint_lists(primary_set_size=20, num_disjoint_lists=9)), parts, d._arrays), partitions, lambda v: sorted(x for b in v for x in b.tolist()) == list(range(20)))
    k.parts = True
    yield k
    masks = [[[int(i in b) for i in range(20)] for b in t] for t in parts]

    def rows():
        for t in masks:
            yield t, True
            for j, b in enumerate(t):
                for i in range(20):
                    yield t[:j] + [b[:i] + [1 - b[i]] + b[i + 1:]] + t[j + 1:], False
                    yield t[:j] + [b[:i] + [2] + b[i + 1:]] + t[j + 1:], False
            yield t + [[0] * 20], False
            yield t[:-1], False

    yield Kind(lib.Dec("dbits(20,9)", lambda m: (lambda r: (r[0], list(r[1])))(m.disjoint_bit_sets(primary_set_size=20, num_disjoint_sets=9)), masks, d._arrays), rows, lambda v: (np.sum(v, axis=0) == 1).all())


def kinds(thorough):
    K = [numeric(lib.binary(), (), 0, 1), numeric(lib.binary((3,)), (3,), 0, 1), numeric(lib.binary((2, 2)), (2, 2), 0, 1),
         numeric(lib.integer((), -2, 3), (), -2, 3), numeric(lib.integer((2,), -2, 2), (2,), -2, 2), numeric(lib.integer((3,), 1, 2), (3,), 1, 2),
         numeric(lib.integer((2, 2), -1, 1), (2, 2), -1, 1, full=thorough), numeric(lib.integer((2, 1), 5, 5), (2, 1), 5, 5), numeric(lib.binary((2, 3)), (2, 3), 0, 1, full=thorough), numeric(lib.integer((1, 2, 2), 0, 1), (1, 2, 2), 0, 1),
         numeric(lib.integer((1,), -3, -2), (1,), -3, -2)]
    for n in (0, 1, 2, 3) + ((4,) if thorough else ()):
        K.append(coll(lib.lst(n), n, n, n, True))
    for n, lo, hi in ((0, 0, 0), (1, 0, 1), (2, 0, 2), (3, 0, 3), (3, 1, 2), (3, 2, 2), (2, 1, 1), (3, 3, 3)) + (((4, 1, 3),) if thorough else ()):
        K.append(coll(lib.st(n, lo, hi), n, lo, hi, False))
    K += [dl(2, 2, range(-1, 3)), dl(1, 3, range(-1, 2)), dl(3, 2, range(0, 4)), dl(2, 1, range(-1, 3)), dl(0, 2, [0])]
    if thorough:
        K.append(dl(2, 3, range(-1, 3)))
    K += [db(2, 2), db(3, 2), db(2, 3), db(1, 3), db(3, 1), db(4, 2)]
    K += list(large())
    return K


def describe(f):
    if isinstance(f, np.ndarray):
        return "%s %s%s%s" % (f.dtype, f.strides, "" if f.flags.writeable else " read-only", " F" if f.flags.f_contiguous and f.ndim > 1 else "")
    return type(f).__name__


def others(m):
    """Decision variables that must never be affected, with two values each."""
    b, i, l, s = m.binary((2,)), m.integer((2,), -1, 4), m.list(3), m.set(3)
    d, dls = m.disjoint_lists(primary_set_size=2, num_disjoint_lists=2)
    e, des = m.disjoint_bit_sets(primary_set_size=2, num_disjoint_sets=2)
    for x, vals in ((b, ([0, 1], [1, 1])), (i, ([3, -1], [4, 0])), (l, ([2, 0, 1], [1, 2, 0])), (s, ([1], [0, 2])), (d, ([[1], [0]], [[], [1, 0]])), (e, ([[0, 1], [1, 0]], [[0, 0], [1, 1]]))):
        yield x, vals, {id(d): dls, id(e): des}.get(id(x), [x])


def assign_case(kind, locked, before):
    def run(c):
        m = Model()
        before_syms = list(others(m)) if before else []
        main, arrs = kind.dec.build(m)
        after_syms = [] if before else list(others(m))
        watch = before_syms + after_syms
        m.states.resize(2)
        derived = [(a.sum(), None) for a in arrs] if locked else []
        const = m.constant([1.5, 2.5])
        dw = []
        if locked:
            for x, vals, syms in watch:
                dw += [s.sum() for s in syms]
            m.lock()
        readable = locked or not isinstance(main, type(None)) and arrs == [main]
        for x, vals, syms in watch:
            for i in (0, 1):
                x.set_state(i, vals[i])

        def snap():
            out = []
            for i in (0, 1):
                for x, vals, syms in watch:
                    if locked or syms == [x]:
                        out += [s.state(i).tolist() for s in syms]
                out += [s.state(i).tolist() for s in dw]
                if locked:
                    out.append(const.state(i).tolist())
            return out

        ref = snap()
        goods = kind.dec.values
        # never set: a member of the domain, also when a dependent symbol is read first
        if readable:
            for i in (0, 1):
                if i and derived:
                    derived[-1][0].state(i)
                got = [a.state(i) for a in arrs]
                c.check(kind.member(got), "default", "%s takes %s by default" % (kind.name, [g.tolist() for g in got]))
        n = 0

        def presented():  # members of the domain in every form, other values in one form each
            for k, (v, valid) in enumerate(kind.cands()):
                fs = list(forms(v, kind))
                for f in fs if valid else [fs[0], fs[k % len(fs)]] if k % len(fs) else [fs[0]]:
                    yield v, f, valid
            for f in odd(goods[0]) :
                yield f, f, False
        for v, f, valid in presented():
            n += 1
            i = n % 2
            base = goods[n % len(goods)]
            other = goods[(n // 2) % len(goods)]
            c.at("%s: %r over %s at %d" % (kind.name, f, base, i))
            main.set_state(i, base)
            main.set_state(1 - i, other)
            if n % 3 == 0:  # the dependents hold a value already
                for d, _ in derived:
                    d.state(i)
            try:
                main.set_state(i, f)
                accepted = True
            except REFUSAL:
                accepted = False
            c.states += 1
            c.transitions += 1
            if accepted != valid:
                c.fail("accepted" if accepted else "refused", "%s %s the value %r (%s)" % (kind.name, "accepts" if accepted else "refuses", f, describe(f)), kind.name)
                if accepted:
                    main.reset_state(i)
                continue
            if readable:
                got = [a.state(i) for a in arrs]
                if accepted:
                    want = kind.dec.arrays(sorted(v) if isinstance(f, collections.abc.Set) else v)  # a set has no order
                    c.check(all(np.array_equal(np.asarray(g).reshape(-1), np.asarray(w).reshape(-1)) for g, w in zip(got, want)) and len(got) == len(want), "readback",
                            lambda: "%s set to %r (%s) reads %s" % (kind.name, f, describe(f), [g.tolist() for g in got]))
                else:
                    c.check(kind.member(got), "refusal", lambda: "%s holds %s after refusing %s" % (kind.name, [g.tolist() for g in got], v))
                for d, g in zip(derived, got):
                    c.check(float(d[0].state(i)) == float(np.sum(g)), "derived", lambda: "the sum of %s is %s" % (g.tolist(), d[0].state(i)))
                oth = [a.state(1 - i) for a in arrs]
                c.check(all(np.array_equal(np.asarray(g).reshape(-1), np.asarray(w).reshape(-1)) for g, w in zip(oth, kind.dec.arrays(other))), "other index",
                        lambda: "assigning %s at %d made the other index %s instead of %s" % (v, i, [g.tolist() for g in oth], other))
            if n % 7 == 0 or not accepted and n % 3 == 0 or n < 60:
                now = snap()
                c.check(now == ref, "others", lambda: "assigning %s changed another variable: %s instead of %s" % (v, now, ref))
            if n % 16 == 0:  # an index that does not exist
                for bad in (2, -1, -3, 7):
                    try:
                        main.set_state(bad, base)
                        c.fail("index", "setting the state at index %d of 2 is accepted" % bad)
                    except (ValueError, IndexError):
                        pass
            if c.stop:
                return
        now = snap()
        c.check(now == ref, "others", lambda: "in the end another variable holds %s instead of %s" % (now, ref))
        c.traces += n
    return run


def make_cases(prop, tier):
    cases = []
    for k in kinds(tier == "thorough"):
        for locked in (True, False):
            for before in (True, False):
                cases.append(("%s/%s/%s" % (k.name, "locked" if locked else "unlocked", "last" if before else "first"), assign_case(k, locked, before)))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
