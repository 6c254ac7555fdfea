"""C14: every assignment of tiny instances of every generator against the documented problem, and malformed instances."""
import itertools
import math
import zipfile

import numpy as np

import exprs
import lib
import runner
from dwave.optimization import generators as G

REFUSAL = (ValueError, TypeError, IndexError, OverflowError)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def run_model(c, model, values, cost, ok, what, kind):
    """All assignments of the model's only decision variable."""
    decs = list(model.iter_decisions())
    own = [d for d in decs if hasattr(d, "set_state")]
    if not c.check(model.is_locked(), "locked", "%s: the model is not locked" % (what,)):
        return
    c.check(len(own) == 1 and len(decs) == 1 and type(own[0]).__name__ == kind, "decisions", lambda: "%s: the decisions are %s" % (what, decs))
    x = own[0]
    model.states.resize(1)
    for v in values:
        x.set_state(0, v)
        c.transitions += 1
        want_ok = ok(v)
        got_ok = all(float(s.state(0)) != 0 for s in model.iter_constraints())
        c.check(bool(got_ok) == bool(want_ok), "feasible", lambda: "%s at %s: feasible is %s instead of %s" % (what, v, got_ok, want_ok), kind)
        c.check(bool(model.feasible(0)) == bool(want_ok), "feasible", lambda: "%s at %s: feasible is %s instead of %s" % (what, v, model.feasible(0), want_ok), kind)
        got, want = float(model.objective.state(0)), float(cost(v))
        c.check(close(got, want), "objective", lambda: "%s at %s: the objective is %s instead of %s" % (what, v, got, want), kind)
        if c.stop:
            return
    # no other value is admitted
    c.check(model.num_decisions() == 1, "decisions", "more decisions")
    c.states += 1
    c.traces += 1


def perms(n):
    return [list(p) for p in itertools.permutations(range(n))]


def subsets(n):
    return [list(p) for k in range(n + 1) for p in itertools.combinations(range(n), k)]


def outside(c, model, bads, what):
    """The decision space is no larger than documented."""
    x = next(model.iter_decisions())
    for b in bads:
        try:
            x.set_state(0, b)
            c.fail("space", "%s: the decision variable admits %s" % (what, b))
        except REFUSAL:
            c.evaluations += 1


# bin packing ---------------------------------------------------------------

def bin_packing_case(n, alphabet, capacities):
    def run(c):
        for cap in capacities:
            for w in itertools.product(alphabet, repeat=n):
                what = "bin_packing(%s, %s)" % (list(w), cap)
                c.at(what)
                if any(x > cap for x in w):
                    refused(c, lambda: G.bin_packing(list(w), cap), what)
                    continue
                m = G.bin_packing(list(w), cap)
                vals = [[[int(t[i] == j) for i in range(n)] for j in range(n)] for t in itertools.product(range(n), repeat=n)]
                run_model(c, m, vals, lambda v: sum(any(b) for b in v), lambda v: all(sum(x for x, y in zip(w, b) if y) <= cap + 1e-12 for b in v), what, "DisjointBitSets")
                if c.stop:
                    return
    return run


def knapsack_case(n, weights, values, capacities):
    def run(c):
        for cap in capacities:
            for w in itertools.product(weights, repeat=n):
                for p in itertools.product(values, repeat=n):
                    what = "knapsack(%s, %s, %s)" % (list(p), list(w), cap)
                    c.at(what)
                    m = G.knapsack(list(p), list(w), cap)
                    run_model(c, m, subsets(n), lambda v: -sum(p[i] for i in v), lambda v: sum(w[i] for i in v) <= cap, what, "SetVariable")
                    if c.stop:
                        return
            outside(c, m, [[n], [-1], [0, 0]], what)
    return run


def tsp_case(matrices):
    def run(c):
        for D in matrices:
            n = len(D)
            what = "traveling_salesperson(%s)" % (np.asarray(D).tolist(),)
            c.at(what)
            m = G.traveling_salesperson(D)
            run_model(c, m, perms(n), lambda v: sum(D[v[i]][v[(i + 1) % n]] for i in range(n)), lambda v: True, what, "ListVariable")
            c.check(m.num_constraints() == 0, "constraints", "%s has constraints" % what)
            outside(c, m, [list(range(n - 1)), list(range(n + 1)), [0] * n if n > 1 else [1]], what)
            if c.stop:
                return
    return run


def qap_case(pairs):
    def run(c):
        for D, F in pairs:
            n = len(D)
            what = "quadratic_assignment(%s, %s)" % (np.asarray(D).tolist(), np.asarray(F).tolist())
            c.at(what)
            m = G.quadratic_assignment(D, F)
            run_model(c, m, perms(n), lambda v: sum(F[i][j] * D[v[i]][v[j]] for i in range(n) for j in range(n)), lambda v: True, what, "ListVariable")
            c.check(m.num_constraints() == 0, "constraints", "%s has constraints" % what)
            if c.stop:
                return
    return run


def flow_shop(T, order):
    end = [0.0] * len(T)
    for j in order:
        prev = 0.0
        for k, row in enumerate(T):
            prev = end[k] = max(prev, end[k]) + row[j]
    return end[-1]


def flow_case(tables):
    def run(c):
        for T in tables:
            what = "flow_shop_scheduling(%s)" % (np.asarray(T).tolist(),)
            c.at(what)
            m = G.flow_shop_scheduling(T)
            run_model(c, m, perms(len(T[0])), lambda v: flow_shop(T, v), lambda v: True, what, "ListVariable")
            c.check(m.num_constraints() == 0, "constraints", "%s has constraints" % what)
            if c.stop:
                return
    return run


def job_shop_ok(T, M, s):
    J, K = len(T), len(T[0])
    for j in range(J):
        for a, b in zip(M[j][:-1], M[j][1:]):
            if s[j][a] + T[j][a] > s[j][b]:
                return False
    for k in range(K):
        for i, j in itertools.combinations(range(J), 2):
            if not (s[i][k] + T[i][k] <= s[j][k] or s[j][k] + T[j][k] <= s[i][k]):
                return False
    return True


def job_shop_case(J, K, times, ub, spread):
    def run(c):
        orders = list(itertools.permutations(range(K)))
        for T in itertools.product(itertools.product(times, repeat=K), repeat=J):
            for M in itertools.product(orders, repeat=J):
                total = sum(map(sum, T))
                hi = total if ub is None else ub
                if hi < 1 and ub is not None:
                    continue
                for base in (0, 1):
                    Mb = [[x + base for x in row] for row in M]
                    what = "job_shop_scheduling(%s, %s, upper_bound=%s)" % (T, Mb, ub)
                    c.at(what)
                    ta, ma = np.asarray(T), np.asarray(Mb)
                    t0, m0 = ta.copy(), ma.copy()
                    m = G.job_shop_scheduling(ta, ma, upper_bound=ub)
                    c.check((ta == t0).all() and (ma == m0).all(), "arguments", "%s changes its arguments" % what)
                    if base and spread > 1:
                        continue
                    grid = itertools.product(range(hi + 1), repeat=J * K)
                    vals = [np.asarray(v).reshape(J, K) for v in itertools.islice(grid, 0, None, spread)]
                    run_model(c, m, vals, lambda v: max(v[j][k] + T[j][k] for j in range(J) for k in range(K)), lambda v: job_shop_ok(T, M, v), what, "IntegerVariable")
                    x = next(m.iter_decisions())
                    c.check(x.shape() == (J, K) and x.lower_bound() == 0 and x.upper_bound() == hi, "space", "%s: start times range over %s..%s" % (what, x.lower_bound(), x.upper_bound()))
                    if c.stop:
                        return
    return run


# vehicle routing -----------------------------------------------------------

def routes(n, k):
    return lib.dlists(n, k).values


def route_cost(D, v):
    """D over all locations, 0 is the depot; routes over customers 0..n-1"""
    t = 0.0
    for r in v:
        if r:
            stops = [0] + [i + 1 for i in r] + [0]
            t += sum(D[a][b] for a, b in zip(stops, stops[1:]))
    return t


def cvrp_case(instances):
    def run(c):
        for kw, D, dem, cap, k in instances:
            what = "capacitated_vehicle_routing(%s)" % ({a: (np.asarray(b).tolist() if not isinstance(b, (int, float)) else b) for a, b in kw.items()},)
            c.at(what)
            before = {a: np.array(b, copy=True) for a, b in kw.items() if b is not None}
            m = G.capacitated_vehicle_routing(**kw)
            n = len(dem)
            run_model(c, m, routes(n, k), lambda v: route_cost(D, v), lambda v: all(sum(dem[i] for i in r) <= cap for r in v), what, "DisjointLists")
            c.check(all((np.asarray(kw[a]) == b).all() for a, b in before.items()), "arguments", "%s changes its arguments" % what)
            if c.stop:
                return
    return run


def powers(n, diagonal=True):
    it = iter(range(60))
    return [[2.0 ** next(it) if i != j or diagonal else 0.0 for j in range(n)] for i in range(n)]


def cvrp_instances():
    out = []
    for n in (1, 2, 3):
        D = powers(n + 1)
        for k in (1, 2, 3) if n < 3 else (1, 2):
            for dem in itertools.product((1, 2, 0.5), repeat=n):
                for cap in (1, 2, 3.5):
                    if sum(dem) > k * cap:
                        continue
                    out.append((dict(demand=[0] + list(dem), number_of_vehicles=k, vehicle_capacity=cap, distances=D), D, dem, cap, k))
    for xs, ys in (([0, 3, 0], [0, 4, 5]), ([5, 0, 9], [7, 0, 2]), ([200, 10, 0], [3, 100, 250]), ([-1, 2, 1], [1, -2, 2])):
        for dt in (None, float, np.int64, np.int32, np.int16, np.uint16, np.uint8, np.int8, np.float32, tuple):
            if dt in (np.uint16, np.uint8) and min(xs + ys) < 0 or dt is np.int8 and max(xs + ys) > 127:
                continue

            def conv(v):
                return list(v) if dt is None else tuple(v) if dt is tuple else np.asarray(v, dtype=dt)

            D = [[math.hypot(xs[i] - xs[j], ys[i] - ys[j]) for j in range(3)] for i in range(3)]
            out.append((dict(demand=[0, 1, 2], number_of_vehicles=2, vehicle_capacity=3, locations_x=conv(xs), locations_y=conv(ys)), D, (1, 2), 3, 2))
            out.append((dict(demand=[1, 2], number_of_vehicles=2, vehicle_capacity=3, locations_x=conv(xs[1:]), locations_y=conv(ys[1:]), depot_x_y=conv([xs[0], ys[0]])), D, (1, 2), 3, 2))
    return out


def tw_ok(inst, v):
    T, dem, cap, op, cl, sv = inst["T"], inst["dem"], inst["cap"], inst["open"], inst["close"], inst["service"]
    for r in v:
        if sum(dem[i] for i in r) > cap:
            return False
        t, at = op[0], 0
        for i in r:
            i += 1
            t = max(t + T[at][i], op[i]) + sv[i]
            if t > cl[i]:
                return False
            at = i
        if r and t + T[at][0] > cl[0]:
            return False
    return True


def cvrptw_case(instances):
    def run(c):
        for inst in instances:
            n, k = len(inst["dem"]), inst["k"]
            kw = dict(demand=[0] + list(inst["dem"]), number_of_vehicles=k, vehicle_capacity=inst["cap"], time_distances=inst["T"],
                      time_window_open=inst["open"], time_window_close=inst["close"], service_time=inst["service"])
            what = "capacitated_vehicle_routing_with_time_windows(%s)" % (kw,)
            c.at(what)
            m = G.capacitated_vehicle_routing_with_time_windows(**kw)
            limit = 3 * -(-n // k)
            R = routes(n, k)
            short = [v for v in R if max(map(len, v)) <= limit]
            run_model(c, m, short, lambda v: route_cost(inst["T"], v), lambda v: tw_ok(inst, v), what, "DisjointLists")
            for v in R:
                if max(map(len, v)) > limit and tw_ok(inst, v):
                    m.states.resize(1)
                    next(m.iter_decisions()).set_state(0, v)
                    c.check(bool(m.feasible(0)), "long route", "%s at %s: a route of more than 3*ceil(customers/vehicles) stops is infeasible" % (what, v))
                    break
            if c.stop:
                return
    return run


def cvrptw_instances(thorough):
    out = []
    for n in (1, 2, 3):
        for k in range(1, n + 2):
            base = dict(dem=[1] * n, k=k, cap=2 if k * 2 >= n else n, T=powers(n + 1), open=[0] * (n + 1), close=[1e5] * (n + 1), service=[0] * (n + 1))
            out.append(base)
            out.append(dict(base, close=[1e9] * (n + 1), T=(np.asarray(powers(n + 1)) * 1e6).tolist()))
            small = [[(1 + (3 * i + 2 * j) % 4) if i != j else 0 for j in range(n + 1)] for i in range(n + 1)]
            asym = [[(1 + (5 * i + 3 * j) % 7) if i != j else 0 for j in range(n + 1)] for i in range(n + 1)]
            for T in (small, asym):
                for op in itertools.product((0, 3), repeat=n):
                    for sv in itertools.product((0, 2), repeat=n) if n < 3 or thorough else ([0] * n, [2] * n, [0, 1, 2]):
                        for cl in itertools.product((2, 5, 9) if n < 3 else (5, 9), repeat=n):
                            for c0 in (4, 8, 20):
                                for o0 in ((0, 2) if n < 3 or thorough else (0,)):
                                    out.append(dict(base, T=T, open=[o0] + list(op), close=[c0] + list(cl), service=[0] + list(sv), cap=2 if k > 1 else n))
    return out


# constrained quadratic models ----------------------------------------------

def cqm_case(n, seed_terms):
    def run(c):
        import dimod
        lin_opts, quad_opts = (0, 1, -2), (0, 1, -1.5)
        edges = list(itertools.combinations(range(n), 2))
        for lin in itertools.product(lin_opts, repeat=n):
            for quad in itertools.product(quad_opts, repeat=len(edges)):
                for off in (0, 2.5):
                    for sense in ("==", "<=", ">="):
                        # the constraint lists its variables in another order than the objective
                        names = ["v%d" % i for i in range(n)]
                        cqm = dimod.ConstrainedQuadraticModel()
                        obj = dimod.BinaryQuadraticModel({names[i]: lin[i] for i in range(n)}, {(names[i], names[j]): q for (i, j), q in zip(edges, quad) if q}, off, "BINARY")
                        cqm.set_objective(obj)
                        sub = names[::-1][:max(1, n - 1)]
                        lhs = dimod.BinaryQuadraticModel({v: 1 + k for k, v in enumerate(sub)}, {(sub[0], sub[-1]): 2} if len(sub) > 1 and seed_terms else {}, 0.5 * seed_terms, "BINARY")
                        cqm.add_constraint(lhs, sense, 1 + 0.5 * seed_terms)
                        what = "cqm(%s, %s, %s, %s)" % (lin, quad, off, sense)
                        c.at(what)
                        m = G._from_constrained_quadratic_model(cqm)
                        order = list(cqm.variables)
                        m.lock()

                        def sample(v):
                            return {order[i]: int(v[i]) for i in range(n)}

                        def ok(v):
                            e = lhs.energy({u: sample(v)[u] for u in sub})
                            r = 1 + 0.5 * seed_terms
                            return e == r if sense == "==" else e <= r if sense == "<=" else e >= r

                        run_model(c, m, [np.asarray(v) for v in itertools.product((0, 1), repeat=n)], lambda v: obj.energy(sample(v)), ok, what, "BinaryVariable")
                        if c.stop:
                            return
    return run


# larger instances: every assignment one exchange or one move away from a few bases --------------------------

def near_perms(n):
    bases = [list(range(n)), list(range(n))[::-1], [(i * 2) % n if n % 2 else (i + n // 2) % n for i in range(n)]]
    out = []
    for b in bases:
        out.append(b)
        for i, j in itertools.combinations(range(n), 2):
            v = list(b)
            v[i], v[j] = v[j], v[i]
            out.append(v)
    return out


def near_routes(n, k, limit):
    """The customers in a few orders, cut into k routes in every way that matters (all of them, or every 2-part and even ones)."""
    out = []
    cuts = list(itertools.combinations_with_replacement(range(n + 1), k - 1))
    if len(cuts) > 60:
        cuts = cuts[:: len(cuts) // 60] + [tuple((i + 1) * n // k for i in range(k - 1))]
    for order in (list(range(n)), list(range(n))[::-1], [(i * 3 + 1) % n for i in range(n)] if n % 3 else [(i + 2) % n for i in range(n)]):
        for cut in cuts:
            at = [0] + list(cut) + [n]
            v = [order[a:b] for a, b in zip(at, at[1:])]
            if max(map(len, v)) <= limit:
                out.append(v)
    return out


def spread_matrix(n, m=None, diagonal=True):
    return [[((7 * i * i + 3 * j + 5 * i * j) % 23) + 0.5 if diagonal or i != j else 0 for j in range(m or n)] for i in range(n)]


def big_bin_packing(n):
    def run(c):
        w = [((5 * i) % 7) / 2 + 0.5 for i in range(n)]
        for cap in (max(w), sum(w) / 2, sum(w)):
            m = G.bin_packing(w, cap)
            vals = []
            for b in ([i for i in range(n)], [0] * n, [n - 1] * n, [i % 2 for i in range(n)], [(i * 3) % n for i in range(n)]):
                vals.append(b)
                for i in range(n):
                    for j in (0, 1, n // 2, n - 1):
                        vals.append(b[:i] + [j] + b[i + 1:])
            vals = [[[int(t[i] == j) for i in range(n)] for j in range(n)] for t in vals]
            run_model(c, m, vals, lambda v: sum(any(b) for b in v), lambda v: all(sum(x for x, y in zip(w, b) if y) <= cap + 1e-12 for b in v), "bin_packing(%s, %s)" % (w, cap), "DisjointBitSets")
    return run


def big_knapsack(n):
    def run(c):
        w, p = [1 + (i * 5) % 11 for i in range(n)], [2.5 + (i * 7) % 13 for i in range(n)]
        pairs = [list(t) for t in itertools.combinations(range(n), 2)]
        vals = [[]] + [[i] for i in range(n)] + pairs[:: max(1, len(pairs) // 200)] + [[j for j in range(n) if j not in t] for t in pairs[:: max(1, len(pairs) // 200)]] + [list(range(n))]
        for cap in (max(w), sum(w) - 3, sum(w) / 3):
            run_model(c, G.knapsack(p, w, cap), vals, lambda v: -sum(p[i] for i in v), lambda v: sum(w[i] for i in v) <= cap, "knapsack(%s, %s, %s)" % (p, w, cap), "SetVariable")
    return run


def big_lists(n):
    def run(c):
        D, F = spread_matrix(n), [[((3 * i + 2 * j * j) % 11) - 0 for j in range(n)] for i in range(n)]
        vals = near_perms(n)
        run_model(c, G.traveling_salesperson(D), vals, lambda v: sum(D[v[i]][v[(i + 1) % n]] for i in range(n)), lambda v: True, "traveling_salesperson(%s)" % D, "ListVariable")
        run_model(c, G.quadratic_assignment(D, F), vals, lambda v: sum(F[i][j] * D[v[i]][v[j]] for i in range(n) for j in range(n)), lambda v: True, "quadratic_assignment(%s, %s)" % (D, F), "ListVariable")
        for machines in (1, 2, 3, 11):
            T = spread_matrix(machines, n)
            run_model(c, G.flow_shop_scheduling(T), vals, lambda v: flow_shop(T, v), lambda v: True, "flow_shop_scheduling(%s)" % T, "ListVariable")
    return run


def big_job_shop(J, K):
    def run(c):
        T = [[(3 * j + 5 * k) % 4 for k in range(K)] for j in range(J)]
        M = [[(k * (j % 2 * 2 - 1) + j) % K for k in range(K)] for j in range(J)]
        total = sum(map(sum, T))
        bases = []
        for order in (list(range(J)), list(range(J))[::-1]):
            free, s = [0] * K, [[0] * K for _ in range(J)]
            for j in order:
                t = 0
                for k in M[j]:
                    s[j][k] = t = max(t, free[k])
                    t += T[j][k]
                    free[k] = t
            bases.append(s)
        vals = []
        for b in bases:
            vals.append(b)
            for j in range(J):
                for k in range(K):
                    for d in (-1, 1, 2, total):
                        if 0 <= b[j][k] + d:
                            v = [list(r) for r in b]
                            v[j][k] = min(total, v[j][k] + d)
                            vals.append(v)
        run_model(c, G.job_shop_scheduling(T, M), vals, lambda v: max(v[j][k] + T[j][k] for j in range(J) for k in range(K)), lambda v: job_shop_ok(T, M, v), "job_shop_scheduling(%s, %s)" % (T, M), "IntegerVariable")
    return run


def big_routing(n, k):
    def run(c):
        dem = [1 + i % 3 for i in range(n)]
        D = [[0 if i == j else x for j, x in enumerate(r)] for i, r in enumerate(spread_matrix(n + 1))]
        for cap in (sum(dem), -(-sum(dem) // k) + 2):
            kw = dict(demand=[0] + dem, number_of_vehicles=k, vehicle_capacity=cap, distances=D)
            run_model(c, G.capacitated_vehicle_routing(**kw), near_routes(n, k, n), lambda v: route_cost(D, v), lambda v: all(sum(dem[i] for i in r) <= cap for r in v), "capacitated_vehicle_routing(%s)" % kw, "DisjointLists")
            for inst in (dict(close=[1e6] * (n + 1), open=[0] * (n + 1)), dict(close=[300] + [40 + 9 * (i % 5) for i in range(n)], open=[1] + [6 * (i % 4) for i in range(n)])):
                inst.update(dem=dem, cap=cap, T=D, service=[0] + [i % 3 for i in range(n)])
                kw = dict(demand=[0] + dem, number_of_vehicles=k, vehicle_capacity=cap, time_distances=D, time_window_open=inst["open"], time_window_close=inst["close"], service_time=inst["service"])
                run_model(c, G.capacitated_vehicle_routing_with_time_windows(**kw), near_routes(n, k, 3 * -(-n // k)), lambda v: route_cost(D, v), lambda v: tw_ok(inst, v), "capacitated_vehicle_routing_with_time_windows(%s)" % kw, "DisjointLists")
    return run


# malformed instances -------------------------------------------------------

def refused(c, fn, what):
    c.states += 1
    c.transitions += 1
    try:
        fn()
    except REFUSAL:
        c.evaluations += 1
        return
    c.fail("accepted", "%s is accepted" % what, what.split(":")[0])


NOT_NUMBERS = [None, "x", ["x"], [1j], [None], {}, [[1, 2], [3]], [float("nan")], [float("inf")], [-float("inf")]]
NAN = float("nan")


def contents(m):
    with zipfile.ZipFile(m.to_file()) as z:
        return {n: z.read(n) for n in z.namelist()}


def forms_case(fn, good):
    """The same instance in every form an argument can take gives the same model, and the arguments stay as they are."""
    def run(c):
        c.at("%s(%s)" % (fn.__name__, good))
        want = contents(fn(**good))
        for arg, value in good.items():
            forms = list(exprs.array_forms(value, float if arg != "machines" else int))
            if np.ndim(value) == 0:
                forms = [value, float(value), int(value), np.float64(value), np.int64(value), np.int8(value), np.float32(value)]
                if arg == "number_of_vehicles":
                    continue
            for f in forms:
                what = "%s with %s as %s" % (fn.__name__, arg, f.flags if isinstance(f, np.ndarray) else type(f).__name__)
                c.at(what)
                before = (np.array(f, copy=True), f.flags.writeable if isinstance(f, np.ndarray) else None)
                kw = dict(good, **{arg: f})
                m = fn(**kw)
                c.states += 1
                c.transitions += 1
                c.check(contents(m) == want, "form", "%s is another model" % what, arg)
                c.check(np.array_equal(before[0], f) and before[1] == (f.flags.writeable if isinstance(f, np.ndarray) else None), "argument", "%s changes the argument" % what, arg)
        c.traces += 1
    return run


def malformed_cases():
    def vec(good, name, nonneg=True, frac=True):
        """Damaged versions of a 1D argument."""
        yield from NOT_NUMBERS
        yield [list(good)]
        yield [[x] for x in good]
        for i in range(len(good)):
            for bad in (NAN, float("inf"), "x", None, 1j) + ((-1, -0.5) if nonneg else ()):
                yield list(good[:i]) + [bad] + list(good[i + 1:])
        yield list(good) + [1]
        if len(good) > 1:
            yield list(good[:-1])

    def mat(good, square=True, whole=False):
        yield from NOT_NUMBERS
        yield [good]
        n, k = len(good), len(good[0])
        for i in range(n):
            for j in range(k):
                for bad in (NAN, float("inf"), "x", None, 1j, -1) + ((0.5,) if whole else ()):
                    g = [list(r) for r in good]
                    g[i][j] = bad
                    yield g
        if square:
            yield [list(r) + [1] for r in good]
            yield [list(r) for r in good] + [[1] * k]
        yield [list(r) for r in good[:-1]] + [list(good[-1][:-1])]

    positive = [0, -1, -0.5, NAN, "x", None]
    G_ = G
    D3 = [[0, 1, 2], [3, 0, 4], [5, 6, 0]]
    specs = [
        (G_.bin_packing, dict(weights=[1, 2], capacity=3), dict(weights=[w for w in vec([1, 2], "weights") if w not in ([1, 2, 1], [1])], capacity=positive + [1])),
        (G_.bin_packing, dict(weights=[1, 2], capacity=3), dict(weights=[[], [4, 1], [0, 3.5]])),
        (G_.knapsack, dict(values=[1, 2], weights=[2, 1], capacity=3), dict(values=list(vec([1, 2], "values")), weights=list(vec([2, 1], "weights")), capacity=positive)),
        (G_.traveling_salesperson, dict(distance_matrix=D3), dict(distance_matrix=list(mat(D3)) + [[[]], []])),
        (G_.quadratic_assignment, dict(distance_matrix=D3, flow_matrix=D3), dict(distance_matrix=list(mat(D3)) + [[[1]], [[1, 2], [3, 4]]], flow_matrix=list(mat(D3)) + [[[1]], [[1, 2], [3, 4]]])),
        (G_.flow_shop_scheduling, dict(processing_times=[[1, 2], [3, 4]]), dict(processing_times=list(mat([[1, 2], [3, 4]], False)) + [[], [[]], [[], []]])),
        (G_.job_shop_scheduling, dict(times=[[1, 2], [3, 4]], machines=[[0, 1], [1, 0]]),
         dict(times=list(mat([[1, 2], [3, 4]], True, True)) + [[], [[]], [[1, 2]]], machines=list(mat([[0, 1], [1, 0]], True, True)) + [[[0, 0], [1, 0]], [[1, 2], [0, 1]], [[2, 3], [3, 2]], [[0, 2], [1, 0]], [[1, 1], [2, 1]]],
              upper_bound=[0, -1, NAN, "x", [1, 2]])),
        (G_.capacitated_vehicle_routing, dict(demand=[0, 1, 2], number_of_vehicles=2, vehicle_capacity=3, distances=D3),
         dict(demand=list(vec([0, 1, 2], "demand")) + [[1, 1, 2], [0, 0, 2], [0, 1, 0], [0, 4, 4]], number_of_vehicles=[0, -1, 1.5, "2", None, [2]], vehicle_capacity=positive + [1],
              distances=[d for d in mat(D3) if d is not None] + [[[0]], [[0, 1], [1, 0]]], locations_x=[[1, 2, 3]], locations_y=[[1, 2, 3]], depot_x_y=[[0, 0]])),
        (G_.capacitated_vehicle_routing, dict(demand=[0, 1, 2], number_of_vehicles=2, vehicle_capacity=3, locations_x=[0, 1, 2], locations_y=[2, 1, 0]),
         dict(demand=list(vec([0, 1, 2], "demand")) + [[1, 1, 2], [0, 0, 2]], locations_x=list(vec([0, 1, 2], "x", False)), locations_y=list(vec([2, 1, 0], "y", False)), depot_x_y=[[0, 0]], distances=[D3])),
        (G_.capacitated_vehicle_routing, dict(demand=[1, 2], number_of_vehicles=2, vehicle_capacity=3, locations_x=[1, 2], locations_y=[1, 0], depot_x_y=[0, 0]),
         dict(demand=list(vec([1, 2], "demand")) + [[1, 0], [0, 1]], depot_x_y=[None, [], [1], [1, 2, 3], [NAN, 1], [1, float("inf")], ["x", 1], [None, 1], 3, [[1, 2]], [[1, 2], [3, 4]], [1j, 0]],
              locations_x=list(vec([1, 2], "x", False)), locations_y=list(vec([1, 0], "y", False)))),
        (G_.capacitated_vehicle_routing_with_time_windows, dict(demand=[0, 1, 2], number_of_vehicles=2, vehicle_capacity=3, time_distances=D3, time_window_open=[0, 1, 2], time_window_close=[9, 8, 7], service_time=[0, 1, 1]),
         dict(demand=list(vec([0, 1, 2], "demand")) + [[1, 1, 2], [0, 0, 2], [0, 1, 0], [0, 4, 4]], number_of_vehicles=[0, -1, 1.5, "2", None, [2]], vehicle_capacity=positive + [1],
              time_distances=list(mat(D3)) + [[[0]], [[0, 1], [1, 0]]], time_window_open=list(vec([0, 1, 2], "open")), time_window_close=list(vec([9, 8, 7], "close")),
              service_time=list(vec([0, 1, 1], "service")) + [[1, 1, 1]])),
    ]
    for i, (fn, good, bads) in enumerate(specs):
        if i != 1:
            yield "forms/%d/%s" % (i, fn.__name__), forms_case(fn, good)

        def run(c, fn=fn, good=good, bads=bads):
            c.at("%s(%s)" % (fn.__name__, good))
            fn(**good)
            for arg, values in bads.items():
                for b in values:
                    kw = dict(good, **{arg: b})
                    what = "%s %s: %s=%r" % (fn.__name__, arg, arg, b)
                    c.at(what)
                    refused(c, lambda: fn(**kw), what)
            c.traces += 1
        yield "malformed/%d/%s" % (i, fn.__name__), run


def together_case():
    """Arguments that fit each other and are malformed together."""
    Z = [0, 1, 2]
    D = [[0, 1, 2], [3, 0, 4], [5, 6, 0]]
    dist = dict(demand=Z, number_of_vehicles=2, vehicle_capacity=3, distances=D)
    loc = dict(demand=Z, number_of_vehicles=2, vehicle_capacity=3, locations_x=[0, 1, 2], locations_y=[2, 1, 0])
    tw = dict(demand=Z, number_of_vehicles=2, vehicle_capacity=3, time_distances=D, time_window_open=[0, 1, 2], time_window_close=[9, 8, 7], service_time=[0, 1, 1])
    vr, vt = G.capacitated_vehicle_routing, G.capacitated_vehicle_routing_with_time_windows
    todo = [(vr, dist, dict(demand=[0], distances=[[0]])), (vr, dist, dict(demand=[0], distances=[[0]], number_of_vehicles=1)), (vr, dist, dict(demand=[], distances=[[]])), (vr, dist, dict(demand=[], distances=[])),
            (vr, loc, dict(demand=[0], locations_x=[1], locations_y=[1])), (vr, loc, dict(demand=[], locations_x=[], locations_y=[])), (vr, loc, dict(demand=[], locations_x=[], locations_y=[], depot_x_y=[0, 0])),
            (vt, tw, dict(demand=[0], time_distances=[[0]], time_window_open=[0], time_window_close=[1], service_time=[0])),
            (vt, tw, dict(demand=[], time_distances=[[]], time_window_open=[], time_window_close=[], service_time=[]))]
    for fn, good in ((vr, dist), (vr, loc), (vt, tw)):
        todo += [(fn, good, dict(number_of_vehicles=n)) for n in (0, -1)] + [(fn, good, dict(vehicle_capacity=n)) for n in (0, -1, NAN)]
        todo += [(fn, good, dict(number_of_vehicles=0, vehicle_capacity=float("inf"))), (fn, good, dict(number_of_vehicles=-1, vehicle_capacity=-3))]

    def run(c):
        for fn, good, change in todo:
            fn(**good)
            what = "%s %s: %r" % (fn.__name__, list(change), change)
            c.at(what)
            refused(c, lambda: fn(**dict(good, **change)), what)
        c.traces += 1
    return run


def matrices(n, alphabet, step=1):
    for k, t in enumerate(itertools.product(alphabet, repeat=n * n)):
        if k % step == 0:
            yield [list(t[i * n:(i + 1) * n]) for i in range(n)]


def chunks(L, n):
    L = list(L)
    k = max(1, (len(L) + n - 1) // n)
    return [L[i:i + k] for i in range(0, len(L), k)]


def make_cases(prop, tier):
    th = tier == "thorough"
    cases = []
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for cap in (1, 2, 2.5, 4):
            cases.append(("bin_packing/%d/%s" % (n, cap), bin_packing_case(n, (0, 0.5, 1, 2, 3) if n < 4 else (0.5, 1, 2), (cap,))))
    for n in (0, 1, 2, 3):
        for cap in (0.5, 1, 2.5, 4):
            cases.append(("knapsack/%d/%s" % (n, cap), knapsack_case(n, (0, 1, 2.5) if n < 3 or th else (1, 2.5), (0, 1, 3.5) if n < 3 or th else (1, 3.5), (cap,))))
    tsp = [[[0]], [[2]]] + list(matrices(2, (0, 1, 2.5))) + list(matrices(3, (0, 1, 3), 1 if th else 23)) + [powers(n) for n in range(1, 8 if th else 7)]
    for k, part in enumerate(chunks(tsp, 60 if th else 12)):
        cases.append(("tsp/%d" % k, tsp_case(part)))
    gen = [(np.arange(n * n).reshape(n, n) * 7 % 11 + 0.5, np.arange(n * n).reshape(n, n) * 5 % 13) for n in (3, 4, 5)]
    qap = [([[1]], [[3]]), ([[0]], [[2]])] + list(itertools.product(matrices(2, (0, 1, 2.5), 1 if th else 2), matrices(2, (0, 1, 3), 1 if th else 5))) + gen
    qap += [(np.eye(3).tolist(), m) for m in matrices(3, (0, 1), 3)] + [(powers(n), [[float(i == a and j == b) for j in range(n)] for i in range(n)]) for n in (3, 4) for a in range(n) for b in range(n)]
    for k, part in enumerate(chunks(qap, 60 if th else 12)):
        cases.append(("qap/%d" % k, qap_case(part)))
    flow = []
    for mach, jobs, alpha, step in ((1, 1, (0, 2), 1), (1, 2, (0, 1, 3), 1), (2, 1, (0, 1, 3), 1), (4, 1, (0, 2), 1), (5, 1, (1, 2), 1), (2, 2, (0, 1, 3), 1), (1, 4, (0, 1, 2.5), 1), (2, 3, (0, 1, 2.5), 1), (3, 2, (0, 1, 3), 1), (4, 2, (1, 3), 1), (3, 3, (0, 2), 1),
                                    (3, 3, (0, 1, 3), 1 if th else 29), (2, 4, (1, 3), 1), (3, 4, (0, 2), 1 if th else 41)):
        for t in itertools.islice(itertools.product(alpha, repeat=mach * jobs), 0, None, step):
            flow.append([list(t[i * jobs:(i + 1) * jobs]) for i in range(mach)])
    for k, part in enumerate(chunks(flow, 80 if th else 24)):
        cases.append(("flow_shop/%d" % k, flow_case(part)))
    for J, K, times, ub, spread in ((1, 1, (0, 1, 3), None, 1), (1, 2, (0, 1, 2), None, 1), (2, 1, (0, 1, 2), None, 1), (3, 1, (0, 1, 2), 3, 1), (1, 3, (0, 1, 2), 3, 1), (2, 2, (0, 1), 2, 1), (2, 2, (0, 1, 2), 3, 1 if th else 7),
                                    (2, 2, (1,), None, 1), (3, 2, (0, 1), 2, 1 if th else 29), (2, 3, (1,), 3, 1 if th else 13), (1, 4, (1,), 3, 1)):
        cases.append(("job_shop/%d-%d-%s-%s" % (J, K, len(times), ub), job_shop_case(J, K, times, ub, spread)))
    for k, part in enumerate(chunks(cvrp_instances(), 16)):
        cases.append(("cvrp/%d" % k, cvrp_case(part)))
    for k, part in enumerate(chunks(cvrptw_instances(th), 64 if th else 24)):
        cases.append(("cvrptw/%d" % k, cvrptw_case(part)))
    for n, k in ((4, 1), (4, 2), (5, 1), (4, 4)) + (((5, 2), (6, 1)) if th else ()):
        cases.append(("cvrptw-more/%d/%d" % (n, k), cvrptw_case([dict(dem=[1] * n, k=k, cap=n, T=powers(n + 1), open=[0] * (n + 1), close=[1e12] * (n + 1), service=[0] * (n + 1)),
            dict(dem=[1] * n, k=k, cap=n, T=[[(1 + (5 * i + 3 * j) % 7) if i != j else 0 for j in range(n + 1)] for i in range(n + 1)], open=[0] + [2 * (i % 3) for i in range(n)], close=[20] + [6 + 3 * (i % 4) for i in range(n)], service=[0] + [i % 2 for i in range(n)])])))
    for n in (1, 2, 3):
        for t in (0, 1):
            if n < 3 or th or t:
                cases.append(("cqm/%d/%d" % (n, t), cqm_case(n, t)))
    for n in (7, 11) + ((25,) if th else ()):
        cases.append(("big/bin_packing/%d" % n, big_bin_packing(n)))
    for n in (11, 70) + ((300,) if th else ()):
        cases.append(("big/knapsack/%d" % n, big_knapsack(n)))
    for n in (8, 11) + ((40,) if th else ()):
        cases.append(("big/lists/%d" % n, big_lists(n)))
    for J, K in ((3, 3), (4, 4), (5, 2), (11, 1), (2, 11), (3, 5)):
        cases.append(("big/job_shop/%d-%d" % (J, K), big_job_shop(J, K)))
    for n, k in ((6, 1), (6, 2), (7, 2), (7, 3), (9, 3), (11, 2), (12, 4), (11, 11), (3, 12), (4, 6)):
        cases.append(("big/routing/%d-%d" % (n, k), big_routing(n, k)))
    cases += list(malformed_cases())
    cases.append(("malformed/together", together_case()))
    return cases


if __name__ == "__main__":
    runner.main(make_cases)
