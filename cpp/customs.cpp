#include "customs.hpp"

namespace vp {

// ------------------------------------------------------------------------------ scripted random numbers
// A generator whose every output is a choice point; the explorer enumerates all choice sequences (stateless
// depth-first search), so a default move is executed under every outcome of every draw.
struct Script {
    std::vector<std::uint32_t> alphabet;
    std::vector<int> choice;
    size_t pos = 0;
    size_t limit = 10;
    std::uint32_t tail = 12345;
    std::uint32_t next() {
        if (pos >= limit) return tail = tail * 1664525u + 1013904223u;  // beyond the bound: one fixed sequence
        if (pos == choice.size()) choice.push_back(0);
        return alphabet[choice[pos++]];
    }
    bool advance() {  // next choice sequence; false when exhausted
        choice.resize(pos);
        while (!choice.empty() && choice.back() + 1 == (int)alphabet.size()) choice.pop_back();
        if (choice.empty()) return false;
        ++choice.back();
        return true;
    }
};
struct ScriptGen {
    using result_type = std::uint32_t;
    Script* s = nullptr;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() { return s->next(); }
    void discard(unsigned long long) {}
    friend bool operator==(const ScriptGen&, const ScriptGen&) { return true; }
};
static std::vector<std::uint32_t> alphabet(int k) {
    std::vector<std::uint32_t> v{0};
    for (int i = 0; i < k; ++i) v.push_back((std::uint32_t)((2 * i + 1) * (4294967296.0 / (2 * k))));
    v.push_back(0xffffffffu);
    return v;
}

static void explore_default_moves(Ctx& c, std::function<int(Model&)> make, int letters, long max_states) {
    Model m;
    int h = make(m);
    if (h < 0) return;
    m.g.topological_sort();
    std::set<std::string> seen;
    std::vector<std::vector<Content>> frontier;
    auto push = [&](const std::vector<Content>& cs) {
        if ((long)seen.size() < max_states && seen.insert(Engine::key(cs)).second) {
            ++c.st.states;
            frontier.push_back(cs);
        }
    };
    auto check = [&](const State& s, const std::string& when) {
        for (auto& d : m.decs) {
            std::string e = d.domain(m.contents(s, d));
            if (!e.empty()) c.fail(C06, "default-" + when, d.desc, e);
        }
    };
    // the default state of a decision that was never set
    {
        c.hist("default state");
        State s = m.g.empty_state();
        m.g.initialize_state(s);
        check(s, "initial");
        push(m.contents(s));
        // ... must allow every move from there
        for (auto& d : m.decs)
            for (auto& mv : d.moves) {
                State s2 = m.g.empty_state();
                m.g.initialize_state(s2);
                Content before = m.contents(s2, d);
                if (!mv.enabled(before)) continue;
                c.hist("default state, " + mv.name);
                mv.apply(s2);
                ++c.st.transitions;
                Content after = m.contents(s2, d);
                std::string e = mv.post(before, after);
                if (e.empty()) e = d.domain(after);
                if (!e.empty()) c.fail(C06, "move-from-default", d.desc, mv.name + ": " + e);
                std::vector<const Node*> src{d.node};
                m.g.propose(s2, src, [](const Graph&, State&) { return false; });
                if (m.contents(s2, d) != before) c.fail(C06, "move-from-default-rejected", d.desc, mv.name);
                check(s2, "rejected");
            }
    }
    for (auto& d : m.decs)
        for (auto& st : d.starts)
            if (m.decs.size() == 1) push({st});
    for (size_t i = 0; i < frontier.size() && !c.stop(); ++i) {
        auto cs = frontier[i];
        for (auto& d : m.decs) {
            Script sc;
            sc.alphabet = alphabet(letters);
            do {
                sc.pos = 0, sc.tail = 12345;
                State s = m.fresh(cs);
                c.hist("default_move of " + d.desc + " from " + [&] { std::string r; for (auto& x : cs) r += str(x); return r; }() + " draws " + [&] { std::string r; for (int x : sc.choice) r += std::to_string(x); return r; }());
                dw::RngAdaptor rng{ScriptGen{&sc}};
                d.decision->default_move(s, rng);
                ++c.st.transitions;
                check(s, "move");
                std::vector<const Node*> src{d.node};
                bool accept = c.st.transitions % 3 != 0;
                m.g.propose(s, src, [&](const Graph&, State&) { return accept; });
                check(s, accept ? "accepted" : "rejected");
                if (accept) push(m.contents(s));
                else if (m.contents(s) != cs) c.fail(C06, "default-reject-restores", d.desc, "decision not restored");
                ++c.st.histories;
                ++c.st.evals;
                if (c.stop()) return;
            } while (sc.advance());
        }
    }
}

template <class N>
static void explore_random_init(Ctx& c, std::function<N*(Graph&)> make, double lo, double hi) {
    Script sc;
    sc.alphabet = alphabet(6);
    Graph g;
    N* n = make(g);
    g.topological_sort();
    do {
        sc.pos = 0, sc.tail = 12345;
        State s = g.empty_state();
        dw::RngAdaptor rng{ScriptGen{&sc}};
        c.hist("random initialisation");
        n->initialize_state(s, rng);
        ++c.st.transitions;
        ++c.st.states;
        for (double x : n->view(s))
            if (!(x >= lo && x <= hi) || x != std::floor(x)) c.fail(C06, "random-init", "number", str(std::vector<double>{x}));
    } while (sc.advance());
}

// ------------------------------------------------------------------------------ several states
struct Observation {
    Vals v;
    std::vector<std::vector<dw::Update>> diffs;
    std::vector<L> size_diffs;
    double energy = 0;
    bool feasible = true;
};
// between a mutation and its propagation only the decisions themselves have a defined value
static Observation observe(Model& m, const State& s, int step) {
    Observation o;
    bool pending = step > 0 && (step - 1) % 3 == 0;
    for (auto& r : m.recs) {
        std::string err;
        if (pending && r.dec < 0) {
            o.v.emplace_back(), o.diffs.emplace_back(), o.size_diffs.push_back(0);
            continue;
        }
        o.v.push_back(read_node(r.node, s, &err));
        auto d = r.node->diff(s);
        o.diffs.emplace_back(d.begin(), d.end());
        o.size_diffs.push_back(r.node->size_diff(s));
    }
    if (pending) return o;
    if (m.objective >= 0) o.energy = m.g.energy(s);
    o.feasible = m.g.feasible(s);
    return o;
}
static int differ(const Observation& a, const Observation& b) {
    for (size_t i = 0; i < a.v.size(); ++i) {
        if (!same(a.v[i], b.v[i]) || a.size_diffs[i] != b.size_diffs[i] || a.diffs[i].size() != b.diffs[i].size()) return (int)i;
        for (size_t k = 0; k < a.diffs[i].size(); ++k)
            if (!dw::Update::equals(a.diffs[i][k], b.diffs[i][k])) return (int)i;
    }
    if (!close(a.energy, b.energy) || a.feasible != b.feasible) return -2;
    return -1;
}

// One state's script: [initialise] move, propagate, finish, move, propagate, finish ...; each entry is atomic.
struct Agent {
    int start;
    std::vector<int> moves;    // one move per transaction
    std::vector<bool> accept;  // per transaction
    int steps() const { return 1 + 3 * (int)moves.size(); }
};

struct AgentState {
    State s;
    std::vector<const Node*> changed;
    bool enabled = true;
};

static void agent_step(Model& m, const std::vector<std::pair<int, int>>& moves, const std::vector<std::vector<Content>>& starts, const Agent& a, AgentState& x, int k) {
    if (k == 0) {
        x.s = m.fresh(starts[a.start]);
        return;
    }
    int t = (k - 1) / 3;
    auto [d, mv] = moves[a.moves[t]];
    switch ((k - 1) % 3) {
        case 0: {
            Content before = m.contents(x.s, m.decs[d]);
            x.enabled = m.decs[d].moves[mv].enabled(before);
            x.changed.clear();
            if (x.enabled) m.decs[d].moves[mv].apply(x.s);
            break;
        }
        case 1: {
            std::vector<const Node*> src{m.decs[d].node};
            x.changed = Graph::descendants(x.s, src);
            m.g.propagate(x.s, std::span<const Node*>(x.changed));
            break;
        }
        case 2:
            if (a.accept[t]) m.g.commit(x.s, std::span<const Node*>(x.changed));
            else m.g.revert(x.s, std::span<const Node*>(x.changed));
            break;
    }
}

static void explore_interleavings(Ctx& c, std::function<void(Model&)> build, int transactions, int nmoves) {
    Model m;
    build(m);
    if (m.recs.empty() || m.decs.empty()) return;
    m.g.topological_sort();
    std::vector<std::pair<int, int>> moves;
    // representative moves: spread over each decision's move list
    for (size_t d = 0; d < m.decs.size(); ++d) {
        size_t n = m.decs[d].moves.size();
        size_t want = std::max<size_t>(1, nmoves / m.decs.size());
        for (size_t k = 0; k < want && k < n; ++k) moves.push_back({(int)d, (int)(k * n / want)});
    }
    std::vector<std::vector<Content>> starts(2);
    for (auto& d : m.decs) {
        starts[0].push_back(d.starts[0]);
        starts[1].push_back(d.starts[1 % d.starts.size()]);
    }
    int M = moves.size();
    // every agent: start x moves^transactions x {accept, reject}^transactions
    std::vector<Agent> agents;
    long combos = 1;
    for (int t = 0; t < transactions; ++t) combos *= M * 2;
    for (int st = 0; st < 2; ++st)
        for (long q = 0; q < combos; ++q) {
            Agent a;
            a.start = st;
            long r = q;
            for (int t = 0; t < transactions; ++t) {
                a.moves.push_back(r % M);
                r /= M;
                a.accept.push_back(r % 2);
                r /= 2;
            }
            agents.push_back(a);
        }
    // what each agent observes alone
    std::vector<std::vector<Observation>> solo(agents.size());
    for (size_t i = 0; i < agents.size(); ++i) {
        AgentState x;
        for (int k = 0; k < agents[i].steps(); ++k) {
            agent_step(m, moves, starts, agents[i], x, k);
            solo[i].push_back(observe(m, x.s, k));
        }
        ++c.st.histories;
    }
    auto describe = [&](const Agent& a) {
        std::string r = "start" + std::to_string(a.start);
        for (size_t t = 0; t < a.moves.size(); ++t) {
            auto [d, k] = moves[a.moves[t]];
            r += " " + m.decs[d].desc + "." + m.decs[d].moves[k].name + (a.accept[t] ? "+" : "-");
        }
        return r;
    };
    int n = agents.empty() ? 0 : agents[0].steps();
    // all interleavings as bit strings with n ones among 2n; symmetric partners are both explored because agents differ
    std::vector<std::vector<char>> orders;
    for (unsigned w = 0; w < (1u << (2 * n)); ++w)
        if (__builtin_popcount(w) == n) {
            std::vector<char> o;
            for (int i = 0; i < 2 * n; ++i) o.push_back((w >> i) & 1);
            orders.push_back(o);
        }
    for (size_t i = 0; i < agents.size(); ++i)
        for (size_t j = i; j < agents.size(); ++j) {
            for (auto& o : orders) {
                AgentState x[2];
                int k[2] = {0, 0};
                c.hist("A: " + describe(agents[i]) + " | B: " + describe(agents[j]) + " | order " + [&] { std::string r; for (char b : o) r += b ? 'B' : 'A'; return r; }());
                std::vector<std::span<const ssize_t>> held[2];
                for (char b : o) {
                    int who = b;
                    const Agent& a = who ? agents[j] : agents[i];
                    const auto& want = who ? solo[j] : solo[i];
                    agent_step(m, moves, starts, a, x[who], k[who]);
                    ++c.st.transitions;
                    Observation got = observe(m, x[who].s, k[who]);
                    c.st.evals += m.recs.size();
                    int bad = differ(got, want[k[who]]);
                    if (bad >= 0 || bad == -2) c.fail(C11, "interference", bad >= 0 ? m.recs[bad].desc : "objective", std::string("state ") + (who ? "B" : "A") + " after its step " + std::to_string(k[who]) + (bad >= 0 ? ": " + str(got.v[bad]) + " alone " + str(want[k[who]].v[bad]) : ""));
                    // what the other state last showed must still be what it shows, through handles obtained then
                    int other = 1 - who;
                    if (k[other] > 0) {
                        const auto& w2 = (other ? solo[j] : solo[i])[k[other] - 1];
                        for (size_t q = 0; q < held[other].size(); ++q) {
                            if ((k[other] - 2) % 3 == 0 && k[other] > 1 && m.recs[q].dec < 0) continue;
                            if (!std::equal(held[other][q].begin(), held[other][q].end(), w2.v[q].shape.begin(), w2.v[q].shape.end())) {
                                c.fail(C11, "held-shape", m.recs[q].desc, "a shape obtained from one state changed when another state was used");
                                break;
                            }
                        }
                        int bad2 = differ(observe(m, x[other].s, k[other] - 1), w2);
                        if (bad2 != -1) c.fail(C11, "foreign-change", bad2 >= 0 ? m.recs[bad2].desc : "objective", "the other state changed");
                    }
                    held[who].clear();
                    for (auto& r : m.recs) held[who].push_back(r.node->shape(x[who].s));
                    ++k[who];
                    if (c.stop()) return;
                }
                ++c.st.states, ++c.st.histories;
            }
        }
}

// ------------------------------------------------------------------------------ iterators
template <class It>
static void walk_iterator(Ctx& c, const std::string& what, const std::vector<double>& want, It begin) {
    L n = want.size();
    c.hist(what);
    auto pos_ok = [&](const It& it, L p, const char* op) {
        ++c.st.evals;
        if (p < n && *it != want[p]) c.fail(C16, op, what, "position " + std::to_string(p) + " reads " + std::to_string(*it) + " want " + std::to_string(want[p]));
        if (it - begin != p || begin - it != -p) c.fail(C16, "distance-from-begin", what, std::string(op) + ": position " + std::to_string(p) + " measured " + std::to_string(it - begin));
    };
    // all positions by repeated increment
    std::vector<It> at;
    {
        It it = begin;
        for (L p = 0; p <= n; ++p) {
            at.push_back(it);
            if (p < n) {
                It old = it++;
                if (old - begin != p) c.fail(C16, "post-increment", what, "");
            }
        }
    }
    for (L p = 0; p <= n; ++p) {
        ++c.st.states;
        pos_ok(at[p], p, "increment");
        if (p < n && begin[p] != want[p]) c.fail(C16, "subscript", what, std::to_string(p));
        if (p > 0) {
            It it = at[p];
            --it;
            pos_ok(it, p - 1, "decrement");
            It j = at[p];
            It old = j--;
            pos_ok(j, p - 1, "post-decrement");
            if (!(old == at[p])) c.fail(C16, "post-decrement-value", what, "");
        }
        for (L q = 0; q <= n; ++q) {
            ++c.st.transitions;
            if (at[p] - at[q] != p - q) c.fail(C16, "pairwise-distance", what, std::to_string(p) + "-" + std::to_string(q) + " measured " + std::to_string(at[p] - at[q]));
            if ((at[p] == at[q]) != (p == q) || (at[p] != at[q]) != (p != q)) c.fail(C16, "equality", what, std::to_string(p) + "," + std::to_string(q));
            if ((at[p] < at[q]) != (p < q) || (at[p] > at[q]) != (p > q) || (at[p] <= at[q]) != (p <= q) || (at[p] >= at[q]) != (p >= q))
                c.fail(C16, "order", what, std::to_string(p) + "," + std::to_string(q));
            // jump p -> q, four ways, then walk on from there in both directions
            for (int way = 0; way < 4; ++way) {
                It it = at[p];
                if (way == 0) it += q - p;
                else if (way == 1) it -= p - q;
                else if (way == 2) it = it + (q - p);
                else it = (q - p) + it;
                pos_ok(it, q, "jump");
                if (way == 0) {
                    It f = it;
                    for (L r = q; r < n; ++r, ++f) pos_ok(f, r, "jump-then-forward");
                    It b = it;
                    for (L r = q; r > 0; --r) {
                        --b;
                        pos_ok(b, r - 1, "jump-then-backward");
                    }
                    for (L r = 0; r <= n; ++r) {
                        It k = it;
                        k += r - q;
                        pos_ok(k, r, "jump-jump");
                    }
                }
            }
        }
        // none of the above may have moved anything else
        for (L q = 0; q <= n; ++q)
            if (q < n && *at[q] != want[q]) c.fail(C16, "disturbed", what, std::to_string(q));
        if (c.stop()) return;
    }
    ++c.st.histories;
}

static void explore_strided(Ctx& c, const Shape& base) {
    // every view base[s1, s2, ...] with slices of every start/step (and length) per axis
    struct Ax { L start, step, len; };
    std::vector<std::vector<Ax>> axes;
    for (L d : base) {
        std::vector<Ax> a;
        for (L start = 0; start < d; ++start)
            for (L step : {1L, 2L, 3L, -1L, -2L}) {
                L maxlen = step > 0 ? (d - start + step - 1) / step : (start + (-step)) / (-step);
                for (L len = maxlen; len >= 1; --len) {
                    a.push_back({start, step, len});
                    if (base.size() > 2 && len < maxlen) break;
                }
            }
        axes.push_back(a);
    }
    std::vector<double> data(prod(base));
    std::iota(data.begin(), data.end(), 100);
    std::vector<L> bs(base.size());
    L acc = 1;
    for (L i = (L)base.size() - 1; i >= 0; --i) bs[i] = acc, acc *= base[i];
    std::vector<size_t> k(base.size(), 0);
    while (true) {
        std::vector<ssize_t> shape, strides;
        L off = 0;
        std::string what = "view of " + str(base) + " [";
        for (size_t i = 0; i < base.size(); ++i) {
            const Ax& a = axes[i][k[i]];
            shape.push_back(a.len);
            strides.push_back(a.step * bs[i] * (L)sizeof(double));
            off += a.start * bs[i];
            what += std::to_string(a.start) + ":" + std::to_string(a.step) + "x" + std::to_string(a.len) + ",";
        }
        std::vector<double> want;
        each_index(Shape(shape.begin(), shape.end()), [&](const Shape& ix, L) {
            L o = off;
            for (size_t d = 0; d < ix.size(); ++d) o += ix[d] * (strides[d] / (L)sizeof(double));
            want.push_back(data[o]);
        });
        walk_iterator(c, what + "]", want, dw::Array::const_iterator(data.data() + off, shape, strides));
        if (c.stop()) return;
        L i = (L)base.size() - 1;
        for (; i >= 0; --i) {
            if (++k[i] < axes[i].size()) break;
            k[i] = 0;
        }
        if (i < 0) break;
    }
}

static void explore_masked(Ctx& c, L n) {
    std::vector<double> data(n), mask(n + 1);
    std::iota(data.begin(), data.end(), 100);
    data.push_back(0);
    double fill = -7;
    for (L w = 0; w < (1 << n); ++w) {
        std::vector<double> want;
        for (L i = 0; i < n; ++i) {
            mask[i] = (w >> i) & 1;
            want.push_back(mask[i] ? fill : data[i]);
        }
        walk_iterator(c, "masked " + std::to_string(n) + "/" + std::to_string(w), want, dw::Array::const_iterator(data.data(), mask.data(), &fill));
        if (c.stop()) return;
    }
    data.pop_back();
    std::vector<double> want = data;
    data.push_back(0);
    walk_iterator(c, "contiguous " + std::to_string(n), want, dw::Array::const_iterator(data.data()));
}

std::vector<Custom> customs(int tier) {
    std::vector<Custom> out;
    auto D = [&](std::string name, int letters, long states, std::function<int(Model&)> mk) {
        out.push_back({"default/" + name, C06, [=](Ctx& c) { explore_default_moves(c, mk, letters, states); }});
    };
    long big = tier ? 4000 : 400;
    D("bin3", 6, big, [](Model& m) { m.lean = 0; return m.binary({3}); });
    D("bin0", 6, big, [](Model& m) { m.lean = 0; return m.binary({}); });
    D("bin_empty", 6, big, [](Model& m) { m.lean = 0; return m.binary({0}); });
    D("int2", 7, big, [](Model& m) { m.lean = 0; return m.integer({2}, 0, 3); });
    D("int_neg", 7, big, [](Model& m) { m.lean = 0; return m.integer({2}, -3, 2); });
    D("int_allneg", 7, big, [](Model& m) { m.lean = 0; return m.integer({2}, -3, -1); });
    D("int_one", 7, big, [](Model& m) { m.lean = 0; return m.integer({1, 2}, 4, 4); });
    D("int_wide", 3, 60, [](Model& m) { m.lean = 0; return m.integer({1}, -2000000000, 2000000000, {-2000000000, 0, 2000000000}); });
    D("int_empty", 6, big, [](Model& m) { m.lean = 0; return m.integer({0}, -2, 2); });
    D("list4", 6, big, [](Model& m) { m.lean = 0; return m.list(4); });
    D("list1", 6, big, [](Model& m) { m.lean = 0; return m.list(1); });
    D("list0", 6, big, [](Model& m) { m.lean = 0; return m.list(0); });
    D("list402", 6, big, [](Model& m) { m.lean = 0; return m.list(4, 0, 2); });
    D("list424", 6, big, [](Model& m) { m.lean = 0; return m.list(4, 2, 4); });
    D("set4", 6, big, [](Model& m) { m.lean = 0; return m.set(4, 0, 4); });
    D("set413", 6, big, [](Model& m) { m.lean = 0; return m.set(4, 1, 3); });
    D("set422", 6, big, [](Model& m) { m.lean = 0; return m.set(4, 2, 2); });
    D("set0", 6, big, [](Model& m) { m.lean = 0; return m.set(0, 0, 0); });
    D("dbits32", 5, big, [](Model& m) { m.lean = 0; return m.disjoint_bits(3, 2); });
    D("dbits23", 5, big, [](Model& m) { m.lean = 0; return m.disjoint_bits(2, 3); });
    D("dbits31", 5, big, [](Model& m) { m.lean = 0; return m.disjoint_bits(3, 1); });
    D("dbits02", 5, big, [](Model& m) { m.lean = 0; return m.disjoint_bits(0, 2); });
    D("dbits12", 5, big, [](Model& m) { m.lean = 0; return m.disjoint_bits(1, 2); });
    D("dbits11", 5, big, [](Model& m) { m.lean = 0; return m.disjoint_bits(1, 1); });
    D("dlists02", 2, big, [](Model& m) { m.lean = 0; return m.disjoint_lists(0, 2); });
    D("dlists12", 2, big, [](Model& m) { m.lean = 0; return m.disjoint_lists(1, 2); });
    D("dlists11", 3, big, [](Model& m) { m.lean = 0; return m.disjoint_lists(1, 1); });
    D("dlists32", 1, tier ? 400 : 12, [](Model& m) { m.lean = 0; return m.disjoint_lists(3, 2); });
    D("dlists23", 1, tier ? 100 : 4, [](Model& m) { m.lean = 0; return m.disjoint_lists(2, 3); });
    D("dlists31", 3, tier ? 400 : 6, [](Model& m) { m.lean = 0; return m.disjoint_lists(3, 1); });
    out.push_back({"randinit/int", C06, [](Ctx& c) {
                       explore_random_init<dw::IntegerNode>(c, [](Graph& g) { return g.emplace_node<dw::IntegerNode>(std::initializer_list<ssize_t>{2}, -3, 2); }, -3, 2);
                       explore_random_init<dw::IntegerNode>(c, [](Graph& g) { return g.emplace_node<dw::IntegerNode>(std::initializer_list<ssize_t>{2}, 2, 5); }, 2, 5);
                       explore_random_init<dw::BinaryNode>(c, [](Graph& g) { return g.emplace_node<dw::BinaryNode>(std::initializer_list<ssize_t>{3}); }, 0, 1);
                   }});

    // interleavings: every multi-decision scenario and every kind of source with the operators that keep state
    std::vector<Scenario> multi;
    multi_scenarios(multi);
    for (auto& s : multi) {
        auto b = s.build;
        out.push_back({"pair/" + s.name, C11, [b, tier](Ctx& c) { explore_interleavings(c, b, 1, tier ? 8 : 4); }});
    }
    auto ops = std::make_shared<std::vector<Op>>(all_ops());
    for (auto& s : sources()) {
        auto mk = s.make;
        auto build = [mk, ops](Model& m) {
            int h = mk(m);
            if (h < 0) return;
            std::vector<int> o;
            for (auto& op : *ops) op.attach(m, h, o);
        };
        out.push_back({"pair/" + s.name, C11, [build, tier](Ctx& c) { explore_interleavings(c, build, 1, tier ? 6 : 3); }});
    }

    for (Shape b : std::vector<Shape>{{1}, {4}, {5}, {1, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 3}, {3, 1}, {2, 2, 2}, {1, 2, 2}, {2, 1, 3}})
        out.push_back({"iter/strided" + str(b), C16, [b](Ctx& c) { explore_strided(c, b); }});
    if (tier)
        for (Shape b : std::vector<Shape>{{4, 4}, {7}, {2, 3, 2}, {3, 2, 3}})
            out.push_back({"iter/strided" + str(b), C16, [b](Ctx& c) { explore_strided(c, b); }});
    for (L n = 0; n <= (tier ? 8 : 6); ++n) out.push_back({"iter/masked" + std::to_string(n), C16, [n](Ctx& c) { explore_masked(c, n); }});
    removal_customs(out, tier);
    if (utils_customs) utils_customs(out, tier);
    return out;
}

}  // namespace vp
