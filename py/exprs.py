"""C05: every operator of the Python interface over every assignment of small decision variables equals NumPy."""
import itertools
import operator

import numpy as np

import lib
import runner
from dwave.optimization import Model
from dwave.optimization import mathematical as dm


def sizes_case(dec, depth, only, nassign, level=2):
    """C04 through Python: the shape, number of elements and bytes a symbol announces hold for every assignment."""
    def run(c):
        c.at("build")
        fam = lib.Family(dec, depth, only, level)
        m = fam.model
        dyn = [x for x in fam.vals if x.dynamic]
        for x in fam.vals:
            sh = x.sym.shape()
            c.check(x.sym.ndim() == len(sh), "ndim", "%s has %d axes and the shape %s" % (x.name, x.sym.ndim(), sh), x.name)
            if not x.dynamic:
                n = int(np.prod(sh, dtype=int))
                c.check(x.sym.size() == n and x.sym.state_size() == 8 * n, "size", "%s of shape %s announces %s elements and %d bytes" % (x.name, sh, x.sym.size(), x.sym.state_size()), x.name)
        total = sum(s.state_size() for s in m.iter_symbols())
        c.check(m.state_size() == total, "size", "the model announces %d bytes, its symbols %d" % (m.state_size(), total))
        total = sum(s.state_size() for s in m.iter_decisions())
        c.check(m.decision_state_size() == total, "size", "the decisions announce %d bytes in total, each one %d" % (m.decision_state_size(), total))
        most = {}
        bound = {x.name: x.sym.state_size() for x in dyn}
        strides = {x.name: x.sym.strides() for x in fam.vals}
        with m.lock():
            m.states.resize(1)
            for v in dec.some(nassign):
                c.at("set %s" % (v,))
                fam.main.set_state(0, v)
                c.states += 1
                for x in fam.vals:
                    a = x.sym.state(0)
                    c.transitions += 1
                    c.evaluations += 1
                    sh = x.sym.shape()
                    if not (a.ndim == len(sh) and all(p == q or q == -1 for p, q in zip(a.shape, sh))):
                        c.fail("shape", "%s announces the shape %s and has %s" % (x.name, sh, a.shape), x.name)
                    if x.dynamic:
                        most[x.name] = max(most.get(x.name, 0), a.nbytes)
                        if a.nbytes > bound[x.name]:
                            c.fail("bytes", "%s announces %d bytes and takes %d" % (x.name, bound[x.name], a.nbytes), x.name)
                c.traces += 1
            c.check(m.state_size() == sum(s.state_size() for s in m.iter_symbols()), "size", "a locked model announces another size")
        for r in fam.roots:  # what a decision variable announces is attained
            if r.dynamic and nassign >= 1000:
                c.check(most[r.name] == bound[r.name], "bytes", "%s announces %d bytes and never takes more than %d" % (r.name, bound[r.name], most[r.name]))
        c.check(all(x.sym.strides() == strides[x.name] for x in fam.vals), "strides", "strides change")
    return run


def family_case(dec, depth, only, nassign, level=2):
    def run(c):
        c.at("build")
        fam = lib.Family(dec, depth, only, level)
        for n, e in fam.wrongly:
            c.fail("refused", "%s was refused: %s" % (n, e), n.split(".", 1)[-1])
        m = fam.model
        with m.lock():
            m.states.resize(2)
            for k, v in enumerate(dec.some(nassign)):
                c.at("set %s" % (v,))
                fam.main.set_state(k % 2, v)
                c.states += 1
                env = dec.arrays(v)
                for x in fam.vals:
                    got = x.sym.state(k % 2)
                    want = x.ref(env)
                    c.evaluations += 1
                    if not lib.same(got, want):
                        c.at("%s at %s" % (x.name, v))
                        c.fail("value", "%s: got %s want %s" % (x.name, got.tolist(), want.tolist()), x.name.split(".", 1)[-1])
                        if c.stop:
                            return
                    c.transitions += 1
                c.traces += 1
    return run


def broadcast_case(sa, sb):
    """Both operands variable: accepted exactly if one is a scalar or the shapes agree, with NumPy's value."""
    def run(c):
        c.at("broadcast %s %s" % (sa, sb))
        m = Model()
        a, b = m.integer(sa, -1, 2), m.integer(sb, -2, 1)
        out = []
        ok = sa == sb or int(np.prod(sa)) == 1 or int(np.prod(sb)) == 1
        try:
            np.broadcast_shapes(sa, sb)
            npok = True
        except ValueError:
            npok = False
        for name, (mk, f, _) in lib.BINARY.items():
            try:
                out.append((name, mk(a, b), f))
            except ValueError:
                if name.endswith("div"):  # refuses denominators that may be zero
                    continue
                c.check(not (sa == sb or sa == () or sb == ()), "refused", "%s of %s and %s is refused" % (name, sa, sb), name)
                continue
            c.check(npok or ok, "accepted", "%s of %s and %s is accepted" % (name, sa, sb), name)
        na, nb = int(np.prod(sa)), int(np.prod(sb))
        with m.lock():
            m.states.resize(1)
            for k in range(12):
                va = np.asarray([(k + i * (k % 4)) % 4 - 1 for i in range(na)], dtype=int).reshape(sa)
                vb = np.asarray([(k * 3 + i) % 4 - 2 for i in range(nb)], dtype=int).reshape(sb)
                a.set_state(0, va)
                b.set_state(0, vb)
                c.states += 1
                for name, s, f in out:
                    got = s.state(0)
                    c.transitions += 1
                    want = lib.F(f(lib.F(va), lib.F(vb)))
                    c.check(lib.same(got.reshape(-1), want.reshape(-1)) and (not npok or got.shape == want.shape), "value", "%s of %s and %s: got %s want %s" % (name, va.tolist(), vb.tolist(), got.tolist(), want.tolist()), name)
        c.traces += 1
    return run


MIXED = {"set": lambda m: m.set(3), "rows": lambda m: m.constant([[1, 2], [3, 4], [5, 6]])[m.set(3), :], "tail": lambda m: m.list(3)[m.constant([0, 1])], "size": lambda m: m.set(2).size(), "()": lambda m: m.constant(2.0),
         "(0,)": lambda m: m.constant(np.zeros(0)), "(0,2)": lambda m: m.constant(np.zeros((0, 2))), "(1,)": lambda m: m.constant([2.0]), "(1,1)": lambda m: m.constant([[2.0]]), "(1,1,1)": lambda m: m.constant([[[2.0]]]),
         "(2,)": lambda m: m.constant([2.0, 3]), "(1,2)": lambda m: m.constant([[2.0, 3]]), "(2,2)": lambda m: m.constant([[2.0, 3], [0, 1]]), "(3,)": lambda m: m.constant([2.0, 3, 4]), "(2,1)": lambda m: m.constant([[2.0], [3]])}
MIXED_OPS = {"add3": (lambda a, b: dm.add(a, b, b), lambda a, b: a + b + b), "multiply3": (lambda a, b: dm.multiply(a, b, a), lambda a, b: a * b * a), "concatenate": (lambda a, b: dm.concatenate([a, b]), lambda a, b: np.concatenate([a, b])),
             "concatenate1": (lambda a, b: dm.concatenate([a, b], axis=1), lambda a, b: np.concatenate([a, b], axis=1)), "where": (lambda a, b: dm.where(a <= a, a, b), lambda a, b: np.where(a <= a, a, b)),
             "where2": (lambda a, b: dm.where(a <= b, b, a), lambda a, b: np.where(a <= b, b, a)), "max4": (lambda a, b: dm.maximum(a, b, b, a), lambda a, b: np.maximum(a, b)), "index": (lambda a, b: a[b], lambda a, b: a[b.astype(int)]),
             "index2": (lambda a, b: a[b, b], lambda a, b: a[b.astype(int), b.astype(int)]), "index3": (lambda a, b: a[:, b], lambda a, b: a[:, b.astype(int)])}


def mixed_case(ka):
    """Operands of every pair of kinds of shapes, dynamic ones included: whatever is accepted has NumPy's value and shape in every state."""
    def run(c):
        ops = {n: (mk, f) for n, (mk, f, _) in lib.BINARY.items()}
        ops.update(MIXED_OPS)
        for kb in MIXED:
            for name, (mk, f) in ops.items():
                c.at("%s of %s and %s" % (name, ka, kb))
                m = Model()
                a, b = MIXED[ka](m), MIXED[kb](m)
                try:
                    z = mk(a, b)
                except (ValueError, TypeError, IndexError):
                    continue
                c.states += 1
                m.states.resize(1)
                with m.lock():
                    decs = list(m.iter_decisions())
                    vals = [([], [1], [0, 1]) if type(d).__name__ == "SetVariable" else ([0, 1, 2], [2, 0, 1]) for d in decs]
                    for vs in itertools.product(*vals):
                        for d, v in zip(decs, vs):
                            d.set_state(0, v)
                        x, y = a.state(0), b.state(0)
                        got = z.state(0)
                        c.transitions += 1
                        try:
                            with np.errstate(all="ignore"):
                                want = lib.F(f(lib.F(x), lib.F(y)))
                        except (ValueError, IndexError):
                            if x.size == 1 or y.size == 1 or ka == "size" or kb == "size":
                                continue
                            c.fail("accepted", "%s of %s and %s (%s and %s) is accepted" % (name, ka, kb, x.tolist(), y.tolist()), name)
                            break
                        c.check(got.shape == want.shape and lib.same(got.reshape(-1), want.reshape(-1)), "value", lambda: "%s of %s and %s: got %s want %s" % (name, x.tolist(), y.tolist(), got.tolist(), want.tolist()), name)
                        c.check(z.shape() == want.shape or (z.shape()[:1] == (-1,) and z.shape()[1:] == want.shape[1:]), "shape", lambda: "%s of %s and %s announces %s and has %s" % (name, ka, kb, z.shape(), want.shape), name)
        c.traces += 1
    return run


def array_forms(a, kind=float):
    """The same numbers, in every way an array can hold them."""
    a = np.asarray(a, dtype=kind)
    yield a.tolist()
    yield a
    if a.ndim:
        yield np.asfortranarray(a)
    r = a.copy()
    r.setflags(write=False)
    yield r
    if a.ndim:
        yield np.repeat(a, 2, axis=-1)[..., ::2]
        yield a[::-1].copy()[::-1]
        yield a[..., ::-1].copy()[..., ::-1]
        yield np.asfortranarray(np.repeat(a, 2, axis=0))[::2]
        yield tuple(a.tolist())
    if a.size and (a == np.floor(a)).all():
        for t in (np.int8, np.int64, ">i4", np.float32, ">f8") + ((np.uint8,) if a.min() >= 0 else ()) + ((bool,) if a.min() >= 0 and a.max() <= 1 else ()):
            yield a.astype(t)
    else:
        yield a.astype(">f8")


def outcome(f):
    try:
        return np.asarray(f()).tolist()
    except (ValueError, TypeError):
        return "refused"


def number(c, k, a):
    """A constant used where Python wants a truth value, an index or a comparison with numbers."""
    scalar = a.shape == ()
    whole = scalar and float(a) == int(a)
    got = [outcome(lambda: bool(k)), outcome(lambda: operator.index(k)), outcome(lambda: list(range(k)))]
    want = [bool(a) if scalar else "refused", int(a) if whole else "refused", list(range(int(a))) if whole else "refused"]
    for op in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
        for other in (0, 1, -2.0, 0.5, np.float64(1), np.full(a.shape, 0.5)):
            got.append(outcome(lambda: op(k, other)))
            want.append(op(a, other).tolist())
    c.check(got == want, "number", lambda: "the constant %s behaves as %s instead of %s" % (a.tolist(), got, want))


def constant_case(shape):
    """Every small constant in every form."""
    def run(c):
        n = int(np.prod(shape))
        keep = []
        m = Model()
        for t in itertools.product((-2.0, 0.0, 1.0, 0.5), repeat=n) if n < 4 else ([float(i * k % 5 - 2) for i in range(n)] for k in range(1, 7)):
            a = np.asarray(t).reshape(shape)
            for f in array_forms(a):
                c.at("%s of %s" % (a.tolist(), f.dtype if isinstance(f, np.ndarray) else type(f).__name__))
                try:
                    k = m.constant(f)
                except Exception as e:
                    c.fail("refused", "the constant %s (%s) is refused: %s" % (a.tolist(), getattr(f, "flags", type(f)), e))
                    continue
                keep.append((k, a, str(getattr(f, "flags", type(f)))))
                c.states += 1
                c.transitions += 1
        with m.lock():
            m.states.resize(1)
            for k, a, w in keep:
                number(c, k, a)
                c.check(k.shape() == a.shape and lib.same(k.state(0), a) and lib.same(np.asarray(k), a), "constant", lambda: "the constant %s (%s) is %s" % (a.tolist(), w, k.state(0).tolist()))
        c.traces += 1
    return run


def quadratic_case(n, kind, thorough):
    """Every quadratic model of up to three terms: repeated, transposed, on the diagonal; as coordinates and as a dictionary."""
    def run(c):
        pairs = list(itertools.product(range(n), repeat=2))
        m = Model()
        if kind == "binary":
            main = x = m.binary((n,))
            vals, f = [np.asarray(t) for t in itertools.product((0, 1), repeat=n)], lambda v: v
        elif kind == "integer":
            main = x = m.integer((n,), -1, 2)
            vals, f = [np.asarray(t) for t in itertools.product((-1, 0, 2), repeat=n)], lambda v: v
        elif kind == "column":
            main = m.integer((n, 2), -1, 2)
            x = main[:, 1]
            vals, f = [np.asarray(t).reshape(n, 2) for t in itertools.product((-1, 2), repeat=2 * n)], lambda v: v[:, 1]
        else:
            main = m.binary((n,))
            x = main * m.constant(np.arange(1.0, n + 1) / 2)
            vals, f = [np.asarray(t) for t in itertools.product((0, 1), repeat=n)], lambda v: v * np.arange(1.0, n + 1) / 2
        made = []
        lins = [None, [3.0], [0.0] * (n - 1) + [-5.0], [7.0 + i for i in range(n)]]
        for k in (1, 2, 3):
            for t in itertools.product(pairs, repeat=k) if n < 3 or k < 3 or thorough else itertools.combinations_with_replacement(pairs, k):
                data = [1.5, -4.0, 16.0][:k]
                rows, cols = [p[0] for p in t], [p[1] for p in t]
                lin = lins[(len(made) + k) % len(lins)]
                Q, b = np.zeros((n, n)), np.zeros(n)
                for (u, v), d in zip(t, data):
                    Q[u, v] += d
                if lin:
                    b[:len(lin)] += lin
                c.at("%s %s %s" % (t, data, lin))
                coords = list(array_forms([rows, cols], int)) + [(rows, cols), (np.asarray(rows), cols), np.asarray([rows, cols], dtype=np.intc)]
                datas = list(array_forms(data))
                some = len(coords) if len(made) % 16 < 2 else 1
                for i in range(some):
                    j = len(made) + i
                    made.append((m.quadratic_model(x, (datas[j % len(datas)], coords[j % len(coords)]), *([] if lin is None else [list(array_forms(lin))[j % 7]])), Q, b))
                if len(set(t)) == k:
                    made.append((m.quadratic_model(x, dict(zip(t, data)), *([] if lin is None else [dict(enumerate(lin))])), Q, b))
                c.states += 1
        with m.lock():
            m.states.resize(1)
            for v in vals:
                c.at("at %s" % v.tolist())
                main.set_state(0, v)
                y = f(v).astype(float)
                for q, Q, b in made:
                    c.transitions += 1
                    c.check(float(q.state(0)) == y @ Q @ y + b @ y, "quadratic", lambda: "quadratic %s linear %s at %s: got %s want %s" % (Q.tolist(), b.tolist(), y.tolist(), q.state(0), y @ Q @ y + b @ y))
                if c.stop:
                    return
        for q, Q, b in made:
            S = Q + Q.T
            for u, v in pairs:
                if u != v:
                    c.check(q.get_quadratic(u, v) == S[u, v], "bias", lambda: "the bias of %d, %d in %s is %s" % (u, v, Q.tolist(), q.get_quadratic(u, v)))
            for u in range(n):
                c.check(q.get_linear(u) + q.get_quadratic(u, u) == b[u] + Q[u, u] and (kind == "binary" or q.get_linear(u) == b[u]), "bias", lambda: "the biases of %d in %s, %s are %s and %s" % (u, Q.tolist(), b.tolist(), q.get_linear(u), q.get_quadratic(u, u)))
        c.traces += 1
    return run


def quadratic_refusals():
    def run(c):
        m = Model()
        x = m.integer((2,), 0, 3)
        bad = [([1.0], [[0]]), ([1.0], [0]), ([1.0, 2.0], [0, 1]), ([1.0], [[0], [1], [1]]), ([1.0], [[0, 1], [1, 0]]), ([1.0, 2.0], [[0], [1]]), ([], [[], []]), {}, ([1.0],), ([1.0], [[0], [1]], 3), [1.0], None, 3]
        for big in (2, -1, 7, 2 ** 31, 2 ** 32, 2 ** 32 + 1, -2 ** 32, 2 ** 40, 2 ** 63, 2 ** 70):
            bad += [([1.0], [[big], [0]]), ([1.0], [[1], [big]]), {(big, 0): 1.0}, {(0, big): 1.0}, ([1.0, 1.0], [[0, big], [0, 0]])]
        calls = [(b,) for b in bad] + [({(0, 1): 1.0}, {k: 1.0}) for k in (2, -1, 2 ** 32, 2 ** 40)] + [(([1.0], [[0], [1]]), [1.0] * 3), (([1.0], [[0], [1]]), [[1.0, 2.0]]), ({(0, 1): 1.0}, [1.0, 2.0]), (([1.0], [[0], [1]]), {0: 1.0})]
        for a in calls:
            c.at("quadratic_model(x, %s)" % (a,))
            n = m.num_symbols()
            try:
                m.quadratic_model(x, *a)
                c.fail("accepted", "quadratic_model accepts %s" % (a,))
            except (ValueError, TypeError, IndexError, OverflowError):
                pass
            c.check(m.num_symbols() == n, "left over", "a refused quadratic model leaves a symbol behind")
            c.states += 1
            c.transitions += 1
        q = m.quadratic_model(x, {(0, 1): 1.0})
        for call in (lambda i: q.get_linear(i), lambda i: q.get_quadratic(i, 0), lambda i: q.get_quadratic(0, i)):
            for i in (-1, 2, 3, 2 ** 31, 2 ** 32, 2 ** 40):
                try:
                    call(i)
                    c.fail("accepted", "the bias of variable %d of 2 can be read" % i)
                except (ValueError, IndexError, OverflowError):
                    pass
                c.states += 1
        c.traces += 1
    return run


DIMS = (0, 1, 3, 50000, 2 ** 16, 2 ** 20, 2 ** 31, 2 ** 32 + 5, 2 ** 62)


def huge_case(first, ndim):
    """What is announced for arrays of more elements than fit 32 bits, and of more than fit 64."""
    def run(c):
        most = 2 ** 63
        for rest in itertools.product(DIMS, repeat=ndim - 1):
            sh = (first,) + rest
            c.at(str(sh))
            m = Model()
            n = int(np.prod([int(k) for k in sh], dtype=object))
            fits, sure = 8 * n < most, 8 * int(np.prod([max(k, 1) for k in sh], dtype=object)) < most

            def announce(what, f, shape, refusable=False):
                count = int(np.prod([int(k) for k in shape], dtype=object))
                before = m.num_symbols()
                c.transitions += 1
                try:
                    y = f()
                except (ValueError, TypeError, IndexError, OverflowError, MemoryError):
                    c.check(refusable or 8 * count >= most, "refused", "%s of %s is refused" % (what, sh), what)
                    c.check(m.num_symbols() == before, "left over", "%s of %s is refused and leaves a symbol" % (what, sh), what)
                    return None
                c.check(8 * count < most, "accepted", "%s of %s, which has %d elements, is accepted" % (what, sh, count), what)
                c.check(y.shape() == shape and y.size() == count and y.ndim() == len(shape) and y.state_size() >= 8 * count, "size",
                        lambda: "%s of %s announces the shape %s, %s elements and %d bytes" % (what, sh, y.shape(), y.size(), y.state_size()), what)
                return y

            x = announce("binary", lambda: m.binary(sh), sh, not sure)
            announce("integer", lambda: m.integer(sh, 0, 3), sh, not sure)
            c.states += 1
            if x is None:
                continue
            c.check(x.state_size() == 8 * n, "bytes", "%s announces %d bytes" % (sh, x.state_size()), "bytes")
            if n == 0:
                continue
            announce("negative", lambda: -x, sh)
            announce("product", lambda: x * x, sh)
            announce("where", lambda: dm.where(x, x, x), sh)
            announce("flat", lambda: x.reshape((n,)), (n,))
            announce("reversed shape", lambda: x.reshape(sh[::-1]), sh[::-1])
            announce("sum", lambda: x.sum(), ())
            for a in range(ndim):
                announce("sum(%d)" % a, lambda: x.sum(axis=a), sh[:a] + sh[a + 1:])
                announce("concatenate(%d)" % a, lambda: dm.concatenate((x, x, x), axis=a), sh[:a] + (3 * sh[a],) + sh[a + 1:])
                announce("[0]", lambda: x[(slice(None),) * a + (0,)], sh[:a] + sh[a + 1:])
                for sl in (slice(1, None), slice(None, None, 2), slice(-3, None), slice(2, -1, 3)):
                    announce("[%s]" % sl, lambda: x[(slice(None),) * a + (sl,)], sh[:a] + (len(range(*sl.indices(sh[a]))),) + sh[a + 1:])
        c.traces += 1
    return run


def make_cases(prop, tier):
    thorough = tier == "thorough"
    cases = []
    decs = lib.small_decs()
    if prop == "C04":
        for d in decs:
            cases.append(("sizes/" + d.name, sizes_case(d, 1, None, 1000)))
            if thorough or d.name[:3] in ("set", "dli"):
                cases.append(("sizes2/" + d.name, sizes_case(d, 2, None, 100 if thorough else 9)))
        for nd in (1, 2, 3):
            for k in DIMS:
                cases.append(("huge/%d/%d" % (nd, k), huge_case(k, nd)))
        return cases
    for d in decs:
        cases.append(("ops/" + d.name, family_case(d, 1, None, 400 if thorough else 64)))
    names = []
    probe = lib.Family(lib.integer((2, 2), -1, 1), 1)
    names = sorted({v.name.split(".", 1)[1] for f in (lib.Family(d, 1) for d in decs) for v in f.vals if "." in v.name})
    use = decs if thorough else [d for d in decs if d.name in ("integer(2,)[-2,2]", "integer(2, 2)[-1,1]", "set(3,0,None)", "list(3)", "binary()")]
    for d in use:
        for n in names:
            cases.append(("comp/%s/%s" % (d.name, n), family_case(d, 2, lambda x, n=n: x == n, 30 if thorough else 8)))
    shapes = [(), (1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3)]
    for sa, sb in itertools.product(shapes, shapes):
        cases.append(("broadcast/%s/%s" % (sa, sb), broadcast_case(sa, sb)))
    for k in MIXED:
        cases.append(("mixed/%s" % k, mixed_case(k)))
    for sh in ((), (1,), (2,), (3,), (2, 2), (2, 3), (1, 2, 2), (0,), (2, 1)):
        cases.append(("constant/%s" % (sh,), constant_case(sh)))
    for n in (1, 2, 3):
        for kind in ("binary", "integer", "column", "product"):
            cases.append(("quadratic/%d/%s" % (n, kind), quadratic_case(n, kind, thorough)))
    cases.append(("quadratic/refusals", quadratic_refusals()))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
