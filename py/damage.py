"""C18: every place to cut a saved file short, every damaged byte, every failing write or read, and every altered member."""
import io
import itertools
import json
import os
import resource
import tempfile
import warnings
import zipfile

import numpy as np

import runner
from dwave.optimization import Model
from dwave.optimization import symbols as ds
from saveload import describe

resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
warnings.simplefilter("ignore")


def tiny(m):
    x = m.binary()
    k = m.constant(2.0)
    m.minimize(x * k)
    m.add_constraint(x <= k)


def scalars(m):
    i = m.integer((2,), -3, 5)
    k = m.constant([[1.5, -2.0], [0.0, 4.0]])
    r = i * k[0] + k[:, 1]
    m.minimize(r.max() + k.sum(axis=0).max())
    m.add_constraint(i[0] <= abs(i[1]) + k[1, 1])


def indexing(m):
    l = m.list(3)
    b = m.binary((2, 3))
    W = m.constant(np.arange(9.0).reshape(3, 3))
    a = W[l, :][:, l]
    t = b.reshape((6,))[1::2]
    m.minimize(a.sum() + (b[0, :] * W[1]).sum() + t.sum())
    m.add_constraint(W[l[0], :].sum() <= W[l, l].sum())


def sets(m):
    s = m.set(3)
    p, ps = m.disjoint_lists(3, 2)
    q, qs = m.disjoint_bit_sets(2, 2)
    w = m.constant([1.0, 2.0, 3.0])
    m.minimize(w[s].sum() + w[ps[1]][:2].sum() + qs[0].sum())
    m.add_constraint(ps[0].size() <= s.size())


def quadratic(m):
    from dwave.optimization.mathematical import concatenate
    x = m.binary((3,))
    y = m.quadratic_model(x, {(0, 1): 1.5, (1, 2): -2.0, (0, 0): 1.0}, {1: 3.0})
    c = concatenate((x, m.constant([2.0]), x))
    m.minimize(y + c.prod())


def chain(m):
    x = m.integer((), 0, 9)
    k = [m.constant(float(i)) for i in range(2)]
    a = x + k[0]
    a += k[1]
    a += x
    m.minimize(a)
    m.add_constraint(a <= k[1])
    m.add_constraint(x == k[0])


MODELS = {"tiny": tiny, "scalars": scalars, "indexing": indexing, "sets": sets, "quadratic": quadratic, "chain": chain}


def alt(x):
    """A state other than the default one."""
    if isinstance(x, ds.BinaryVariable):
        return np.ones(x.shape())
    if isinstance(x, ds.IntegerVariable):
        return np.full(x.shape(), x.upper_bound() - 1 if x.upper_bound() > x.lower_bound() else x.lower_bound())
    if isinstance(x, ds.ListVariable):
        return list(range(x.size()))[::-1]
    if isinstance(x, ds.SetVariable):
        return [2, 0]
    if isinstance(x, ds.DisjointLists):
        return [[2], [1, 0]]
    if isinstance(x, ds.DisjointBitSets):
        return [[0, 1], [1, 0]]


def build(name, states=0):
    m = Model()
    MODELS[name](m)
    if states:
        m.states.resize(states)
        for x in m.iter_decisions():
            x.set_state(0, alt(x))
            if states > 2:
                x.set_state(2, alt(x))
    return m


def saved(name, kind):
    m = build(name, 0 if kind == "model" else 3)
    f = io.BytesIO()
    if kind == "states":
        m.states.into_file(f)
    else:
        m.into_file(f, max_num_states=3 if kind == "both" else 0)
    return f.getvalue()


def state_of(m):
    out = [m.states.size()]
    for i in range(m.states.size()):
        for x in m.iter_decisions():
            out.append(x.has_state(i))
            if x.has_state(i):
                out.append(x.state(i).tolist() if hasattr(x, "state") else [s.state(i).tolist() for s in x.iter_successors()] if m.is_locked() else None)
    return out


def view(m):
    with m.lock():
        return describe(m), state_of(m)


class Target:
    """A model with states of its own, into which the (damaged) states are loaded."""

    def __init__(self, name, locked):
        self.m = m = build(name, 2)
        m.lock()
        self.other = list(m.iter_symbols())
        for s in self.other:
            if hasattr(s, "state"):
                s.state(0)
        self.locked = locked
        if not locked:
            m.unlock()
        self.good = saved(name, "states")
        self.was = self.now()
        t = build(name, 3)
        self.wanted = view(t)[1]

    def now(self):
        with self.m.lock():
            return (state_of(self.m), [s.state(0).tolist() for s in self.other if hasattr(s, "state")], describe(self.m))

    def offer(self, c, data, what, **kw):
        """Offer damaged states; the target must be as it was if they are refused. Returns the states if they are accepted."""
        try:
            self.m.states.from_file(io.BytesIO(data), **kw)
        except Exception:
            c.check(self.m.is_locked() == self.locked, "lock", "after refused states (%s) the model is %s" % (what, "locked" if self.m.is_locked() else "unlocked"))
            c.check(self.now() == self.was, "target", "states were refused (%s) but those held before were changed" % what)
            return None
        with self.m.lock():
            got = state_of(self.m)
        self.restore()
        return got

    def restore(self):
        m = self.m
        m.states.clear()
        m.states.resize(2)
        for x in m.iter_decisions():
            x.set_state(0, alt(x))
        with m.lock():
            for s in self.other:
                if hasattr(s, "state"):
                    s.state(0)

    def usable(self, c):
        self.m.states.from_file(io.BytesIO(self.good))
        with self.m.lock():
            c.check(state_of(self.m) == self.wanted, "unusable", "intact states are not loaded as they were saved after damaged ones were refused")
        self.restore()


HOWS = ("stream", "unchecked", "name")


def load(data, how):
    if how == "stream":
        return Model.from_file(io.BytesIO(data))
    if how == "unchecked":
        return Model.from_file(io.BytesIO(data), check_header=False)
    fd, name = tempfile.mkstemp(suffix=".nl")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        return Model.from_file(name)
    finally:
        os.unlink(name)


def attempt(data, how="stream"):
    try:
        return load(data, how)
    except Exception:
        return None


def truncation_case(name, kind, k, of):
    """The file cut after every byte (and cut and filled with zeros up to the length it had)."""
    def run(c):
        data = saved(name, kind)
        want = view(load(data, "stream"))
        T = Target(name, bool(k % 2)) if kind == "states" else None
        for n in range(k, len(data), of):
            for fill in (0, 1):
                d = data[:n] + (b"\0" * (len(data) - n) if fill else b"")
                if d == data:
                    continue
                c.at("%s %s cut at %d of %d%s" % (name, kind, n, len(data), ", zero filled" if fill else ""))
                for how in HOWS if n % 16 == 0 or n > len(data) - 40 else HOWS[:2]:
                    m = attempt(d, how)
                    if m is not None:
                        # within the zeros that pad the end there is nothing to lose
                        c.check(fill and view(m) == want, "accepted", lambda: "%s of the %s of %s cut at byte %d of %d%s is accepted" % (how, kind, name, n, len(data), " (zero filled)" if fill else ""), kind)
                    c.transitions += 1
                if T and (n < 120 or n % 8 == k % 8):
                    got = T.offer(c, d, "cut at %d" % n)
                    c.check(got is None or fill and got == T.wanted, "accepted", "states cut at %d are loaded" % n)
                c.states += 1
            if c.stop:
                return
        if T:
            T.usable(c)
        c.traces += 1
    return run


def header_case(name, kind, k, of):
    """Every header byte given every other value."""
    def run(c):
        data = saved(name, kind)
        want = view(load(data, "stream"))
        n = 10 + int.from_bytes(data[6:10], "little")
        info = json.loads(data[10:n])
        T = Target(name, bool(k % 2)) if kind == "states" else None
        for pos in range(k, n, of):
            for v in range(256):
                if v == data[pos]:
                    continue
                d = bytearray(data)
                d[pos] = v
                d = bytes(d)
                c.at("%s %s header byte %d set to %d" % (name, kind, pos, v))
                same = False  # is the damage without meaning (white space)?
                if 10 <= pos:
                    try:
                        same = json.loads(d[10:n].decode("ascii")) == info
                    except ValueError:
                        pass
                elif 6 <= pos < 10:
                    try:
                        same = json.loads(d[10:10 + int.from_bytes(d[6:10], "little")].decode("ascii")) == info
                    except ValueError:
                        pass
                for how in ("stream", "name") if pos < 10 or v in (0, 32, 49, 57, 255) else ("stream",):
                    m = attempt(d, how)
                    if m is not None:
                        c.check(same, "header", lambda: "%s is accepted with header byte %d changed from %d to %d" % (kind, pos, data[pos], v), pos if pos < 10 else "json")
                        c.check(view(m) == want, "differs", "with header byte %d changed to %d another model is loaded" % (pos, v))
                    c.transitions += 1
                m = attempt(d, "unchecked")
                if m is not None:
                    c.check(pos > 5, "header", "an unknown kind of file (byte %d is %d) is accepted unchecked" % (pos, v), pos)
                    c.check(view(m) == want, "differs", "unchecked: with header byte %d changed to %d another model is loaded" % (pos, v))
                else:
                    c.check(pos < 10 or True, "unchecked", "")
                if T:
                    got = T.offer(c, d, "header byte %d = %d" % (pos, v))
                    c.check(got is None or same and got == T.wanted, "header", "states with header byte %d changed to %d are accepted" % (pos, v), pos)
                c.states += 1
            if c.stop:
                return
        if T:
            T.usable(c)
        c.traces += 1
    return run


def sane(c, m, what):
    """Whatever was accepted is a model that can be used."""
    with m.lock():
        syms = list(m.iter_symbols())
        for i, s in enumerate(syms):
            ok = s.topological_index() == i and all(p.topological_index() < i and p.model is m for p in s.iter_predecessors())
            if not c.check(ok, "malformed", "%s: symbol %d of the loaded model is out of order" % (what, i)):
                return
        if m.objective is not None:
            c.check(m.objective.model is m and m.objective.size() == 1, "malformed", "the loaded objective is not a scalar of the model")
        for x in m.iter_constraints():
            c.check(x.model is m, "malformed", "constraint of another model")
        if sum(s.state_size() for s in syms if not (hasattr(s, "shape") and s.shape() and s.shape()[0] == -1)) > 1 << 22:
            return
        if m.states.size() > 1000:
            return
        n = m.states.size()
        m.states.resize(n + 1)
        for s in syms:
            if not hasattr(s, "state"):
                continue
            for i in range(n + 1):
                a = s.state(i)
                shape = s.shape()
                good = len(a.shape) == len(shape) and all(q == p or p == -1 for p, q in zip(shape, a.shape))
                if not c.check(good, "malformed", lambda: "%s: %s of shape %s holds a state of shape %s" % (what, type(s).__name__, shape, a.shape)):
                    return
        for i in range(n + 1):
            m.feasible(i)
        if m.objective is not None:
            m.objective.state(n)
        lim = {ds.BinaryVariable: lambda s: (0, 1), ds.IntegerVariable: lambda s: (s.lower_bound(), s.upper_bound())}
        for s in m.iter_decisions():
            if type(s) in lim:
                lo, hi = lim[type(s)](s)
                for i in range(n + 1):
                    a = s.state(i)
                    c.check(((a >= lo) & (a <= hi) & (a == np.floor(a))).all(), "domain", "%s: the state of %s is %s" % (what, type(s).__name__, a.tolist()))
            elif isinstance(s, (ds.ListVariable, ds.SetVariable)):
                for i in range(n + 1):
                    a = s.state(i).tolist()
                    c.check(len(set(a)) == len(a), "domain", "%s: %s holds %s" % (what, type(s).__name__, a))


def byte_case(name, kind, k, of, values):
    """Every byte of the file damaged: nothing crashes, and what is accepted is what was saved."""
    def run(c):
        data = saved(name, kind)
        want = view(load(data, "stream"))
        T = Target(name, bool(k % 2)) if kind == "states" else None
        n0 = 10 + int.from_bytes(data[6:10], "little")
        for pos in range(n0 + k, len(data), of):
            for v in values:
                b = v(data[pos]) & 255
                if b == data[pos]:
                    continue
                d = bytearray(data)
                d[pos] = b
                d = bytes(d)
                c.at("%s %s byte %d of %d set to %d" % (name, kind, pos, len(data), b))
                m = attempt(d)
                if m is not None:
                    now = view(m)
                    if now != want:
                        # (outside the claim: damage to the name of a state's member in the directory makes that state unset)
                        c.check(lost_only(want, now), "differs", lambda: "with byte %d changed from %d to %d another model is loaded: %s" % (pos, data[pos], b, [(x, y) for x, y in zip(want[0][0] + want[1], now[0][0] + now[1]) if x != y][:2]), kind)
                if T and pos % 4 == k % 4:
                    got = T.offer(c, d, "byte %d = %d" % (pos, b))
                    c.check(got is None or subset(got, T.wanted), "differs", "states with byte %d changed to %d are accepted, with other values" % (pos, b))
                c.states += 1
                c.transitions += 1
            if c.stop:
                return
        if T:
            T.usable(c)
        c.traces += 1
    return run


def subset(got, want):
    """The states are those wanted, but that some are unset."""
    i = j = 1
    if got[0] != want[0]:
        return False
    while i < len(got) and j < len(want):
        if got[i] and not want[j]:
            return False
        if got[i]:
            if got[i + 1] != want[j + 1]:
                return False
            i += 1
        j += 2 if want[j] else 1
        i += 1
    return i == len(got) and j == len(want)


def lost_only(want, now):
    return want[0] == now[0] and subset(now[1], want[1])


def block_case(name, kind, size):
    """Every aligned block lost (zeros), and every aligned block swapped with the next."""
    def run(c):
        data = saved(name, kind)
        want = view(load(data, "stream"))
        T = Target(name, True) if kind == "states" else None
        for i in range(0, len(data), size):
            for j in (None, i + size):
                d = bytearray(data)
                a = d[i:i + size]
                if j is None:
                    d[i:i + size] = bytes(len(a))
                else:
                    d[i:i + 2 * size] = d[j:j + size] + a
                if d == data:
                    continue
                c.at("%s %s block %d of %d bytes %s" % (name, kind, i // size, size, "lost" if j is None else "swapped"))
                m = attempt(bytes(d))
                if m is not None:
                    c.check(lost_only(want, view(m)), "differs", lambda: c.last + ": another model is loaded")
                if T:
                    got = T.offer(c, bytes(d), c.last)
                    c.check(got is None or subset(got, T.wanted), "differs", c.last + ": states with other values are accepted")
                c.states += 1
                c.transitions += 1
        if T:
            T.usable(c)
        c.traces += 1
    return run


class Faulty(io.BytesIO):
    """A file of which the n-th operation of a kind fails (once or from then on)."""

    def __init__(self, op, n, forever, data=b""):
        super().__init__(data)
        self.op, self.n, self.forever, self.count = op, n, forever, 0

    def _hit(self, op):
        if op == self.op:
            self.count += 1
            if self.count == self.n or self.forever and self.count > self.n:
                raise OSError("device error")

    def write(self, b):
        self._hit("write")
        return super().write(b)

    def read(self, *a):
        self._hit("read")
        return super().read(*a)

    def seek(self, *a):
        self._hit("seek")
        return super().seek(*a)

    def tell(self):
        self._hit("tell")
        return super().tell()


def fault_case(name, kind):
    """Every write (seek, tell) of a save failing: the model is as before and what was written is refused; every read of a load failing."""
    def run(c):
        data = saved(name, kind)
        want = view(load(data, "stream"))
        for locked in (False, True):
            for op in ("write", "seek", "tell"):
                for forever in (False, True):
                    for n in itertools.count(1):
                        c.at("%s %s: %s %d fails%s while saving" % (name, kind, op, n, " (and all later ones)" if forever else ""))
                        m = build(name, 0 if kind == "model" else 3)
                        if locked:
                            m.lock()
                        was = view(m)
                        f = Faulty(op, n, forever)
                        raised = False
                        try:
                            if kind == "states":
                                m.states.into_file(f)
                            else:
                                m.into_file(f, max_num_states=3 if kind == "both" else 0)
                        except OSError:
                            raised = True
                        except Exception as e:
                            raised = True
                        hit = f.count >= n
                        c.check(m.is_locked() == locked, "lock", "a failed save leaves the model %s" % ("locked" if m.is_locked() else "unlocked"))
                        c.check(view(m) == was, "save alters", "a failed save changes the model or its states")
                        if not raised:
                            # an error while looking is survived by zipfile where it does not matter
                            got = attempt(f.getvalue())
                            c.check(got is not None and view(got) == want, "lost write", "%s %d failed, the save did not" % (op, n))
                        else:
                            got = attempt(f.getvalue())
                            # (a file whose saving failed, the device recovering at once, may at worst lack states)
                            c.check(got is None or view(got) == want or not forever and lost_only(want, view(got)), "differs", "%s %d failed; what was written is accepted and differs" % (op, n))
                        # and saving again works
                        g = io.BytesIO()
                        if kind == "states":
                            m.states.into_file(g)
                        else:
                            m.into_file(g, max_num_states=3 if kind == "both" else 0)
                        if n < 6 or n % 16 == 0:
                            got = attempt(g.getvalue())
                            c.check(got is not None and view(got) == want, "unusable", "after a failed save, saving does not work")
                        c.states += 1
                        c.transitions += 1
                        if not hit or c.stop:
                            break
                    if c.stop:
                        return
        T = Target(name, True) if kind == "states" else None
        for op in ("read", "seek", "tell"):
            for n in itertools.count(1):
                c.at("%s %s: %s %d fails while loading" % (name, kind, op, n))
                f = Faulty(op, n, True, data)
                try:
                    m = Model.from_file(f)
                except Exception:
                    m = None
                hit = f.count >= n
                if m is not None:
                    c.check(view(m) == want, "differs", "%s %d failed; another model is loaded" % (op, n))
                if T:
                    g = Faulty(op, n, True, data)
                    try:
                        T.m.states.from_file(g)
                        with T.m.lock():
                            c.check(state_of(T.m) == T.wanted, "differs", "%s %d failed; other states are loaded" % (op, n))
                        T.restore()
                    except Exception:
                        c.check(T.now() == T.was, "target", "a failed load of states (%s %d) changed those held" % (op, n))
                c.states += 1
                c.transitions += 1
                if not hit or c.stop:
                    break
        if T:
            T.usable(c)
        c.traces += 1
    return run


def overwrite_case(first):
    """A shorter file written over a longer one that is not truncated: what is read is the new one, or refused."""
    def run(c):
        for k1, k2 in itertools.product(("model", "both", "states"), repeat=2):
            old = saved(first, k1)
            for second in MODELS:
                new = saved(second, k2)
                for cut in sorted({0, 64, len(new) // 2, len(new) - 22, len(new)}):
                    d = new[:cut] + old[cut:]
                    c.at("%d bytes of %s %s over %s %s" % (cut, second, k2, first, k1))
                    m = attempt(d)
                    if m is not None:
                        v = view(m)
                        c.check(cut and v == view(load(new, "stream")) or v == view(load(old, "stream")), "mixed", c.last + " is accepted as a model that is neither")
                    c.states += 1
                    c.transitions += 1
        c.traces += 1
    return run


# ------------------------------------------------------------------ altered members (intact checksums)

def members(data):
    n = int.from_bytes(data[6:10], "little")
    z = zipfile.ZipFile(io.BytesIO(data))
    return data[:10 + n], [(i.filename, z.read(i)) for i in z.infolist()]


def rebuild(header, mem):
    f = io.BytesIO()
    f.write(header)
    with zipfile.ZipFile(f, mode="w") as z:
        for name, b in mem:
            z.writestr(name, b)
    return f.getvalue()


def give(c, d, what, T=None, check_header=True):
    for chk in (True, False):
        try:
            m = Model.from_file(io.BytesIO(d), check_header=chk)
        except Exception:
            c.transitions += 1
            continue
        c.at(what + " (accepted)")
        sane(c, m, what)
        c.at(what)
        c.transitions += 1
    if T:
        T.offer(c, d, what, check_header=False)
    c.states += 1


def member_case(name, kind, mi):
    """Every character of a member replaced, removed or doubled."""
    def run(c):
        header, mem = members(saved(name, kind))
        fn, b = mem[mi]
        T = Target(name, True) if kind == "states" else None
        binary = fn.endswith(".npy") or "/states/" in fn
        alphabet = [bytes([x]) for x in (b"019-,:\"[]{}. exn\n" if not binary else b"\0\x01\x7f\x80\xff09(),'<>Ofi4 ")]
        if binary:
            alphabet += [bytes([0xf0]), bytes([0x40])]
        for pos in range(len(b) + 1):
            for op in [("set", a) for a in alphabet] + [("ins", a) for a in alphabet] + [("del", b"")]:
                if op[0] == "set" and pos < len(b):
                    nb = b[:pos] + op[1] + b[pos + 1:]
                elif op[0] == "ins":
                    nb = b[:pos] + op[1] + b[pos:]
                elif op[0] == "del" and pos < len(b):
                    nb = b[:pos] + b[pos + 1:]
                else:
                    continue
                if nb == b:
                    continue
                what = "%s: %s of %s at %d with %r: %r" % (name, op[0], fn, pos, op[1], nb[max(0, pos - 20):pos + 20])
                c.at(what)
                give(c, rebuild(header, mem[:mi] + [(fn, nb)] + mem[mi + 1:]), what, T if pos % 4 == 0 else None)
            if c.stop:
                return
        if T:
            T.usable(c)
        c.traces += 1
    return run


def entries_case(name, kind, k, of):
    """Members removed, emptied, halved, doubled, exchanged for one another."""
    def run(c):
        header, mem = members(saved(name, kind))
        T = Target(name, False) if kind == "states" else None
        for i in range(k, len(mem), of):
            fn, b = mem[i]
            alts = [("removed", mem[:i] + mem[i + 1:]), ("emptied", mem[:i] + [(fn, b"")] + mem[i + 1:]), ("halved", mem[:i] + [(fn, b[: len(b) // 2])] + mem[i + 1:]),
                    ("doubled", mem[:i] + [(fn, b + b)] + mem[i + 1:]), ("twice", mem + [(fn, b)]), ("null", mem[:i] + [(fn, b"null")] + mem[i + 1:]), ("list", mem[:i] + [(fn, b"[]")] + mem[i + 1:]),
                    ("object", mem[:i] + [(fn, b"{}")] + mem[i + 1:]), ("text", mem[:i] + [(fn, b'"x"')] + mem[i + 1:]), ("true", mem[:i] + [(fn, b"true")] + mem[i + 1:]), ("float", mem[:i] + [(fn, b"1.5")] + mem[i + 1:]),
                    ("negative", mem[:i] + [(fn, b"-1")] + mem[i + 1:]), ("huge", mem[:i] + [(fn, b"99999999999999999999")] + mem[i + 1:]), ("negatives", mem[:i] + [(fn, b"[-1]")] + mem[i + 1:]),
                    ("huges", mem[:i] + [(fn, b"[1000000]")] + mem[i + 1:]), ("slices", mem[:i] + [(fn, b"[[0,0,0],[0,0,0]]")] + mem[i + 1:]), ("bools", mem[:i] + [(fn, b"[true]")] + mem[i + 1:])]
            alts += [("as " + f2, mem[:i] + [(fn, b2)] + mem[i + 1:]) for f2, b2 in mem if f2 != fn]
            if b.count(b"\n") > 1 and not fn.endswith(".npy"):
                lines = b.splitlines(True)
                for p in range(len(lines)):
                    alts.append(("without line %d" % p, mem[:i] + [(fn, b"".join(lines[:p] + lines[p + 1:]))] + mem[i + 1:]))
                    for q in range(p):
                        ls = list(lines)
                        ls[p], ls[q] = ls[q], ls[p]
                        alts.append(("lines %d and %d exchanged" % (q, p), mem[:i] + [(fn, b"".join(ls))] + mem[i + 1:]))
            for w, a in alts:
                what = "%s %s: %s %s" % (name, kind, fn, w)
                c.at(what)
                give(c, rebuild(header, a), what, T)
            if c.stop:
                return
        if T:
            T.usable(c)
        c.traces += 1
    return run


def types_case(name):
    """Every symbol's type exchanged for every other type, and every predecessor for every other."""
    def run(c):
        header, mem = members(saved(name, "model"))
        names = [fn for fn, _ in mem]
        ti, ai = names.index("nodetypes.txt"), names.index("adj.adjlist")
        lines = mem[ti][1].splitlines(True)
        every = sorted(k for k, v in vars(ds).items() if isinstance(v, type)) + ["Symbol", "ArraySymbol", "nothing", "", "np", "os", "_register", "__doc__"]
        for p in range(len(lines)):
            for t in every:
                ls = list(lines)
                ls[p] = t.encode() + b"\n"
                if ls == lines:
                    continue
                what = "%s: type of symbol %d is %s instead of %s" % (name, p, t, lines[p].strip().decode())
                c.at(what)
                give(c, rebuild(header, mem[:ti] + [("nodetypes.txt", b"".join(ls))] + mem[ti + 1:]), what)
            if c.stop:
                return
        adj = [list(map(int, l.split())) for l in mem[ai][1].splitlines()]
        for p in range(len(adj)):
            outs = [adj[p][:1], adj[p] + [0], adj[p] + [p], adj[p] + [-1], adj[p] + [len(adj)], adj[p][:2], adj[p] + [adj[p][-1]], [adj[p][0]] + adj[p][:0:-1]]
            for e in range(1, len(adj[p])):
                for q in range(-1, len(adj) + 1):
                    outs.append(adj[p][:e] + [q] + adj[p][e + 1:])
            for o in outs:
                if o == adj[p]:
                    continue
                ls = adj[:p] + [o] + adj[p + 1:]
                what = "%s: adjacency of symbol %d is %s instead of %s" % (name, p, o, adj[p])
                c.at(what)
                give(c, rebuild(header, mem[:ai] + [("adj.adjlist", b"".join(b" ".join(b"%d" % x for x in l) + b"\n" for l in ls))] + mem[ai + 1:]), what)
            if c.stop:
                return
        c.traces += 1
    return run


def make_cases(prop, tier):
    thorough = tier == "thorough"
    cases = []
    names = list(MODELS)
    for n in names:
        for kind in ("model", "both", "states"):
            of = 4
            for k in range(of):
                cases.append(("cut/%s/%s/%d" % (n, kind, k), truncation_case(n, kind, k, of)))
            if thorough or n in ("tiny", "sets"):
                for k in range(16):
                    cases.append(("header/%s/%s/%d" % (n, kind, k), header_case(n, kind, k, 16)))
            vals = [lambda b: b ^ 255, lambda b: b ^ 1, lambda b: b ^ 0x80, lambda b: 0] if not thorough else [(lambda b, i=i: b ^ (1 << i)) for i in range(8)] + [lambda b: 0, lambda b: 255, lambda b: b + 1, lambda b: b - 1, lambda b: b ^ 255]
            if thorough or n in ("tiny", "sets", "indexing"):
                for k in range(8):
                    cases.append(("byte/%s/%s/%d" % (n, kind, k), byte_case(n, kind, k, 8, vals)))
            for size in (64, 512):
                cases.append(("block/%s/%s/%d" % (n, kind, size), block_case(n, kind, size)))
            if thorough or n in ("tiny", "sets") or kind == "states":
                cases.append(("fault/%s/%s" % (n, kind), fault_case(n, kind)))
            for k in range(4):
                cases.append(("entries/%s/%s/%d" % (n, kind, k), entries_case(n, kind, k, 4)))
        cases.append(("over/%s" % n, overwrite_case(n)))
        cases.append(("types/%s" % n, types_case(n)))
    for n in names if thorough else ("tiny", "indexing", "sets", "quadratic"):
        for kind in ("both", "states") if thorough else ("both",):
            for mi, (fn, b) in enumerate(members(saved(n, kind))[1]):
                cases.append(("member/%s/%s/%s" % (n, kind, fn), member_case(n, kind, mi)))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
