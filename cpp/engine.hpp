// Explicit-state exploration of the real incremental engine: every bounded sequence of moves, batched,
// propagated, accepted or rejected, with every property monitor evaluated at every step.
#pragma once
#include <cstdio>
#include <cstring>
#include <unordered_map>

#include "model.hpp"

namespace vp {

enum Prop { C01 = 1, C02 = 2, C03 = 4, C04 = 8, C05 = 16, C06 = 32, C11 = 64, C13 = 128, C15 = 256, C16 = 512, C17 = 1024, C12 = 2048, C19 = 4096 };
inline unsigned prop_of(const std::string& s) {
    static const std::map<std::string, unsigned> t{{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}, {"C06", C06},
                                                   {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C15", C15}, {"C16", C16}, {"C17", C17}, {"C19", C19}, {"ALL", 0xffff}};
    auto it = t.find(s);
    if (it == t.end()) throw std::runtime_error("unknown property " + s);
    return it->second;
}
inline std::string prop_name(unsigned p) {
    switch (p) {
        case C01: return "C01"; case C02: return "C02"; case C03: return "C03"; case C04: return "C04"; case C05: return "C05";
        case C06: return "C06"; case C11: return "C11"; case C12: return "C12"; case C13: return "C13"; case C15: return "C15"; case C16: return "C16"; case C17: return "C17"; case C19: return "C19";
    }
    return "?";
}

struct Failure {
    unsigned prop;
    std::string kind, rec, detail, history;
};

struct Shared {  // lives in memory shared with the parent: what was running when a child died
    volatile char hist[8192];
    volatile long states, transitions, evals, distinct;
};

struct Stats {
    long states = 0, transitions = 0, evals = 0, rejects = 0, accepts = 0, histories = 0;
    int depth = 0;
};

// a step of a history
struct Step {
    bool accept = true;
    int variant = 0;
    std::vector<int> moves;  // global move ids
};
inline std::string str(const Step& s) {
    std::string r = s.accept ? "A" : "R";
    r += std::to_string(s.variant) + ":";
    for (size_t i = 0; i < s.moves.size(); ++i) r += (i ? "," : "") + std::to_string(s.moves[i]);
    return r;
}
inline std::string str(int start, const std::vector<Step>& h) {
    std::string r = std::to_string(start);
    for (auto& s : h) r += "|" + str(s);
    return r;
}
inline std::pair<int, std::vector<Step>> parse_history(const std::string& t) {
    std::stringstream ss(t);
    std::string tok;
    std::getline(ss, tok, '|');
    int start = std::stoi(tok);
    std::vector<Step> h;
    while (std::getline(ss, tok, '|')) {
        Step s;
        s.accept = tok[0] == 'A';
        size_t c = tok.find(':');
        s.variant = std::stoi(tok.substr(1, c - 1));
        std::stringstream ms(tok.substr(c + 1));
        std::string m;
        while (std::getline(ms, m, ',')) s.moves.push_back(std::stoi(m));
        h.push_back(s);
    }
    return {start, h};
}

struct Bounds {
    int root_batch = 2;      // moves per transaction at the root
    int batch = 1;           // moves per transaction elsewhere
    int long_batches = 2;    // batches of 3 and 4 structural moves at the root (1: resizing ones only)
    long max_states = 40;    // distinct decision assignments expanded by the breadth-first closure
    int plain_depth = 2;     // accepted single-move sequences explored without merging states
    bool all_starts = true;
    bool rejected_then = false;  // for C02: every rejected t1 followed by every accepted t2 vs t2 alone
    int max_moves = 1 << 30;
    int max_combos = 8;
    long max_pairs = 6000;  // more (rejected, accepted) pairs than this: single-move rejections only
};

struct Engine {
    Model& m;
    unsigned mask;
    Bounds b;
    Stats st;
    Shared* sh;
    bool verbose = false;
    std::vector<Failure> fails;
    std::set<std::string> failsigs;
    size_t max_fails = 3;

    std::vector<std::pair<int, int>> moves;  // global id -> (dec, move)
    std::vector<std::vector<Content>> starts;
    std::unordered_map<std::string, Vals> scratch_memo, ref_memo;
    std::string cur;
    std::vector<double> lo, hi;
    std::vector<char> integral, logical;
    std::vector<dw::SizeInfo> sizes, deep_sizes;

    Engine(Model& m, unsigned mask, Bounds b, Shared* sh) : m(m), mask(mask), b(b), sh(sh) {
        m.g.topological_sort();
        for (size_t d = 0; d < m.decs.size(); ++d)
            for (size_t k = 0; k < m.decs[d].moves.size(); ++k) moves.push_back({(int)d, (int)k});
        // starting assignments: first start of each, second of each, and mixed
        size_t combos = 1;
        for (auto& d : m.decs) combos *= d.starts.size();
        for (size_t c = 0; c < combos && c < (size_t)b.max_combos; ++c) {
            std::vector<Content> s;
            size_t k = c;
            for (auto& d : m.decs) {
                s.push_back(d.starts[k % d.starts.size()]);
                k /= d.starts.size();
            }
            starts.push_back(s);
        }
        if (mask & C04) {
            for (auto& r : m.recs) {
                lo.push_back(r.node->min());
                hi.push_back(r.node->max());
                integral.push_back(r.node->integral());
                logical.push_back(r.node->logical());
                sizes.push_back(r.node->sizeinfo());
                deep_sizes.push_back(r.node->sizeinfo().array_ptr ? r.node->sizeinfo().substitute(100) : r.node->sizeinfo());
            }
        }
    }

    std::string move_name(int id) const {
        auto [d, k] = moves[id];
        return m.decs[d].desc + "." + m.decs[d].moves[k].name;
    }

    // a history in words
    std::string describe(const std::string& h) const {
        if (h.rfind("assign:", 0) == 0 || h.find("|init") != std::string::npos) return h;
        auto [start, steps] = parse_history(h);
        std::string r = "start";
        for (size_t i = 0; i < m.decs.size(); ++i) r += " " + m.decs[i].desc + "=" + str(starts[start][i]);
        for (auto& t : steps) {
            r += t.accept ? "; accept" : "; reject";
            for (int id : t.moves) r += " " + move_name(id);
        }
        return r;
    }

    void set_hist(const std::string& h) {
        cur = h;
        if (sh) {
            size_t n = std::min(h.size(), sizeof(sh->hist) - 1);
            memcpy((void*)sh->hist, h.data(), n);
            sh->hist[n] = 0;
            sh->states = st.states;
            sh->transitions = st.transitions;
            sh->evals = st.evals;
        }
    }

    void fail(unsigned prop, const std::string& kind, int rec, const std::string& detail) {
        if (!(mask & prop)) return;
        std::string rd = rec >= 0 ? m.recs[rec].desc : "";
        std::string sig = prop_name(prop) + "|" + kind + "|" + rd;
        if (!failsigs.insert(sig).second) return;
        fails.push_back({prop, kind, rd, detail, cur});
        if (verbose) fprintf(stderr, "FAIL %s %s %s: %s [%s]\n", prop_name(prop).c_str(), kind.c_str(), rd.c_str(), detail.c_str(), cur.c_str());
    }
    bool stop() const { return fails.size() >= max_fails; }

    static std::string key(const std::vector<Content>& cs) {
        std::string k;
        for (auto& c : cs)
            for (auto& row : c) {
                L n = row.size();
                k.append((const char*)&n, sizeof n);
                k.append((const char*)row.data(), n * sizeof(double));
            }
        return k;
    }

    Vals read_all(const State& s, const char* when) {
        Vals v(m.recs.size());
        for (size_t i = 0; i < m.recs.size(); ++i) {
            std::string err;
            v[i] = read_node(m.recs[i].node, s, &err);
            ++st.evals;
            if (!err.empty()) {
                fail(C01, "shape", i, std::string(when) + ": " + err);
                fail(C05, "shape", i, std::string(when) + ": " + err);
                if (m.recs[i].indexing) fail(C15, "shape", i, std::string(when) + ": " + err);
                v[i].v.clear();
            }
        }
        return v;
    }

    const Vals& scratch(const std::vector<Content>& cs) {
        std::string k = key(cs);
        auto it = scratch_memo.find(k);
        if (it != scratch_memo.end()) return it->second;
        State s = m.fresh(cs);
        Vals v = read_all(s, "initialised");
        if (mask & C04) check_ranges(s, v);
        if (mask & C03) check_clean(s, "after initialisation");
        if (mask & C13) check_objective(s, v);
        if (mask & C16) check_views(s, v);
        if (mask & (C05 | C15)) {
            const Vals& r = reference(cs);
            compare(v, r, C05, "value-initialised", true);
        }
        return scratch_memo.emplace(k, std::move(v)).first->second;
    }
    const Vals& reference(const std::vector<Content>& cs) {
        std::string k = key(cs);
        auto it = ref_memo.find(k);
        if (it != ref_memo.end()) return it->second;
        return ref_memo.emplace(k, m.evaluate(cs)).first->second;
    }

    // report the first differing node only (later ones are usually consequences)
    bool compare(const Vals& got, const Vals& want, unsigned prop, const char* kind, bool ref = false) {
        for (size_t i = 0; i < m.recs.size(); ++i)
            if (!same(got[i], want[i])) {
                std::string d = "got " + str(got[i]) + " want " + str(want[i]);
                fail(prop, kind, i, d);
                if (ref && m.recs[i].indexing) fail(C15, kind, i, d);
                return false;
            }
        return true;
    }

    void check_ranges(const State& s, const Vals& v) {
        for (size_t i = 0; i < m.recs.size(); ++i) {
            const auto& r = m.recs[i];
            for (double x : v[i].v) {
                if (x < lo[i] - 1e-9 * std::max(1.0, std::fabs(lo[i])) || x > hi[i] + 1e-9 * std::max(1.0, std::fabs(hi[i]))) {
                    fail(C04, "range", i, "value " + str(std::vector<double>{x}) + " outside advertised [" + str(std::vector<double>{lo[i], hi[i]}) + "]");
                    break;
                }
                if (integral[i] && (r.exact ? x != std::floor(x) : std::fabs(x - std::round(x)) > 1e-9 * std::max(1.0, std::fabs(x)))) {
                    fail(C04, "integral", i, "non-integer value " + str(std::vector<double>{x}));
                    break;
                }
                if (logical[i] && x != 0 && x != 1) {
                    fail(C04, "logical", i, "non-logical value " + str(std::vector<double>{x}));
                    break;
                }
            }
            L n = v[i].size();
            if (r.node->size() >= 0 && r.node->size() != n) fail(C04, "fixed-size", i, "size " + std::to_string(n) + " advertised " + std::to_string(r.node->size()));
            auto chk = [&](const dw::SizeInfo& z, const char* k) {
                if (z.min && n < *z.min) fail(C04, k, i, "size " + std::to_string(n) + " below advertised minimum " + std::to_string(*z.min));
                if (z.max && n > *z.max) fail(C04, k, i, "size " + std::to_string(n) + " above advertised maximum " + std::to_string(*z.max));
                if (!z.array_ptr && r.node->size() < 0 && z.multiplier == 0 && z.min && z.max && *z.min == *z.max && z.offset != n)
                    fail(C04, k, i, "fixed sizeinfo offset " + std::to_string(z.offset) + " but size " + std::to_string(n));
            };
            chk(sizes[i], "size-range");
            chk(deep_sizes[i], "deep-size-range");
        }
    }

    void check_clean(const State& s, const char* when, unsigned prop = C03) {
        for (size_t i = 0; i < m.recs.size(); ++i) {
            const auto* n = m.recs[i].node;
            if (n->diff(s).size()) fail(prop, "diff-not-empty", i, std::string(when) + ": " + std::to_string(n->diff(s).size()) + " pending updates");
            if (n->size_diff(s)) fail(prop, "size-diff-not-zero", i, std::string(when) + ": " + std::to_string(n->size_diff(s)));
        }
    }

    void check_diffs(const State& s, const Vals& before, const Vals& now) {
        for (size_t i = 0; i < m.recs.size(); ++i) {
            const auto* n = m.recs[i].node;
            std::vector<double> x = before[i].v;
            std::string err;
            for (const auto& u : n->diff(s)) {
                if (u.placed() && u.removed()) { err = "update from nothing to nothing"; break; }
                if (u.placed()) {
                    if (u.index != (L)x.size()) { err = "placement at " + std::to_string(u.index) + " in array of size " + std::to_string(x.size()); break; }
                    x.push_back(u.value);
                } else if (u.removed()) {
                    if (x.empty() || u.index != (L)x.size() - 1) { err = "removal at " + std::to_string(u.index) + " in array of size " + std::to_string(x.size()); break; }
                    if (!close(x.back(), u.old)) { err = "removal reports old value " + std::to_string(u.old) + " but " + std::to_string(x.back()) + " was held"; break; }
                    x.pop_back();
                } else {
                    if (u.index < 0 || u.index >= (L)x.size()) { err = "update at " + std::to_string(u.index) + " in array of size " + std::to_string(x.size()); break; }
                    if (!close(x[u.index], u.old)) { err = "update at " + std::to_string(u.index) + " reports old value " + std::to_string(u.old) + " but " + std::to_string(x[u.index]) + " was held"; break; }
                    x[u.index] = u.value;
                }
            }
            if (err.empty() && !same(ND{{(L)x.size()}, x}, ND{{now[i].size()}, now[i].v})) err = "replaying the reported changes gives " + str(x) + " but contents are " + str(now[i].v);
            if (err.empty() && n->size_diff(s) != now[i].size() - before[i].size())
                err = "size_diff " + std::to_string(n->size_diff(s)) + " but size went " + std::to_string(before[i].size()) + " -> " + std::to_string(now[i].size());
            if (!err.empty()) {
                fail(C03, "diff", i, err);
                return;
            }
        }
    }

    void check_objective(const State& s, const Vals& v) {
        if (m.objective >= 0) {
            double e = m.g.energy(s);
            if (!close(e, v[m.objective].v[0])) fail(C13, "energy", m.objective, "energy " + std::to_string(e) + " objective value " + std::to_string(v[m.objective].v[0]));
        }
        bool feas = true;
        for (int c : m.constraints)
            if (!v[c].v[0]) feas = false;
        if (m.g.feasible(s) != feas) fail(C13, "feasible", -1, "feasible() " + std::to_string(!feas) + " constraints say " + std::to_string(feas));
    }

    void check_views(const State& s, const Vals& v) {
        for (size_t i = 0; i < m.recs.size(); ++i) {
            const auto* n = m.recs[i].node;
            const auto& x = v[i].v;
            L sz = x.size();
            auto bad = [&](const std::string& w) { fail(C16, w, i, "contents " + str(v[i])); };
            {
                std::vector<double> y;
                L guard = 0;
                for (auto it = n->begin(s), e = n->end(s); it != e && guard <= sz; ++it, ++guard) y.push_back(*it);
                if (y != x && !same(ND{{(L)y.size()}, y}, ND{{sz}, x})) bad("forward");
            }
            auto vw = n->view(s);
            if (vw.size() != sz) bad("view-size");
            for (L k = 0; k < sz; ++k)
                if (!close(vw[k], x[k])) { bad("subscript"); break; }
            if (sz) {
                std::vector<double> y;
                auto it = n->end(s);
                for (L k = 0; k < sz; ++k) { --it; y.push_back(*it); }
                std::reverse(y.begin(), y.end());
                if (!same(ND{{sz}, y}, ND{{sz}, x})) bad("backward");
                if (!(it == n->begin(s))) bad("backward-begin");
            }
            if (n->end(s) - n->begin(s) != sz) bad("distance");
            for (L a = 0; a <= sz && a <= 6; ++a)
                for (L c = 0; c <= sz && c <= 6; ++c) {
                    auto ia = n->begin(s) + a;
                    auto ic = n->begin(s) + c;
                    if (ia - ic != a - c) { bad("pairwise-distance"); return; }
                    if ((ia < ic) != (a < c) || (ia == ic) != (a == c)) { bad("compare"); return; }
                    if (a < sz && !close(*ia, x[a])) { bad("measure-disturbs"); return; }
                    ia += (c - a);
                    if (c < sz && !close(*ia, x[c])) { bad("jump"); return; }
                }
        }
    }

    // apply the moves of a step; returns number applied (== moves.size() if all enabled)
    size_t apply(State& s, const Step& t, std::vector<const Node*>& sources) {
        size_t k = 0;
        for (int id : t.moves) {
            auto [d, mv] = moves[id];
            const Dec& dec = m.decs[d];
            Content before = m.contents(s, dec);
            if (!dec.moves[mv].enabled(before)) break;
            std::vector<Content> others;
            if (mask & C06) others = m.contents(s);
            *m.told = -1;
            dec.moves[mv].apply(s);
            Content after = m.contents(s, dec);
            if (mask & C06) {
                if (*m.told >= 0 && (*m.told != 0) != (after != before)) fail(C06, "told", dec.recs[0], dec.moves[mv].name + " returned " + std::to_string(*m.told) + " going from " + str(before) + " to " + str(after));
                if (dec.access)
                    if (std::string e = dec.access(s, after); !e.empty()) fail(C06, "access", dec.recs[0], dec.moves[mv].name + ": " + e);
                std::string e = dec.moves[mv].post(before, after);
                if (!e.empty()) fail(C06, "move", dec.recs[0], dec.moves[mv].name + ": " + e);
                e = dec.domain(after);
                if (!e.empty()) fail(C06, "domain", dec.recs[0], dec.moves[mv].name + ": " + e);
                for (size_t o = 0; o < m.decs.size(); ++o)
                    if ((int)o != d && others[o] != m.contents(s, m.decs[o])) fail(C06, "foreign", dec.recs[0], dec.moves[mv].name + " changed another decision");
            }
            if (std::find(sources.begin(), sources.end(), dec.node) == sources.end()) sources.push_back(dec.node);
            ++k;
        }
        return k;
    }

    // Execute one step on a live state whose committed observation is `committed`. Returns false if a move
    // was not enabled (the already applied prefix is rejected, leaving the committed state).
    bool step(State& s, const Step& t, Vals& committed, const std::string& hist) {
        set_hist(hist);
        ++st.transitions;
        std::vector<const Node*> sources;
        size_t k = apply(s, t, sources);
        bool ok = k == t.moves.size();
        bool accept = t.accept && ok;
        if (t.variant == 1) {  // every decision listed as changed, in reverse order
            sources.clear();
            for (size_t d = m.decs.size(); d-- > 0;) sources.push_back(m.decs[d].node);
        }
        Vals now;
        auto inspect = [&](State& s2) {
            now = read_all(s2, "propagated");
            std::vector<Content> cs = m.contents(s2);
            if (mask & (C01 | C16 | C13 | C04 | C03 | C02 | C05 | C15)) {
                const Vals& want = scratch(cs);
                if (mask & C01) compare(now, want, C01, "value-propagated");
            }
            if (mask & (C05 | C15)) compare(now, reference(cs), C05, "value-propagated", true);
            if (mask & C03) check_diffs(s2, committed, now);
            if (mask & C04) check_ranges(s2, now);
            if (mask & C13) check_objective(s2, now);
            if (mask & C16) check_views(s2, now);
        };
        if (t.variant == 2) {  // the manual protocol
            auto changed = Graph::descendants(s, sources);
            m.g.propagate(s, std::span<const Node*>(changed));
            inspect(s);
            if (accept) m.g.commit(s, std::span<const Node*>(changed));
            else m.g.revert(s, std::span<const Node*>(changed));
        } else {
            m.g.propose(s, sources, [&](const Graph&, State& s2) {
                inspect(s2);
                return accept;
            });
        }
        Vals after = read_all(s, accept ? "accepted" : "rejected");
        if (accept) {
            ++st.accepts;
            if (mask & C01) compare(after, now, C01, "value-accepted");
            if (mask & C03) check_clean(s, "after acceptance");
            if (mask & C06)
                for (auto& d : m.decs) {
                    std::string e = d.domain(m.contents(s, d));
                    if (e.empty() && d.access) e = d.access(s, m.contents(s, d));
                    if (!e.empty()) fail(C06, "domain-after-accept", d.recs[0], e);
                }
            committed = std::move(after);
        } else {
            ++st.rejects;
            if (mask & C02) compare(after, committed, C02, "value-rejected");
            if (mask & C01) {
                // a rejected proposal must leave what evaluating the (restored) decisions gives
                std::vector<Content> cs = m.contents(s);
                compare(after, scratch(cs), C01, "value-rejected");
            }
            if (mask & C03) check_clean(s, "after rejection");
            if (mask & C02) check_clean(s, "after rejection", C02);
            if (mask & C06)
                for (auto& d : m.decs) {
                    std::string e = d.domain(m.contents(s, d));
                    if (e.empty() && d.access) e = d.access(s, m.contents(s, d));
                    if (!e.empty()) fail(C06, "domain-after-reject", d.recs[0], e);
                    for (int h : d.recs)
                        if (!same(after[h], committed[h])) fail(C06, "reject-restores-decision", h, "got " + str(after[h]) + " want " + str(committed[h]));
                }
        }
        if ((mask & C16) && !accept) check_views(s, after);
        return ok;
    }

    State replay(int start, const std::vector<Step>& path, Vals& committed) {
        State s = m.fresh(starts[start]);
        for (auto& t : path) {
            std::vector<const Node*> sources;
            apply(s, t, sources);
            m.g.propose(s, sources, [&](const Graph&, State&) { return t.accept; });
        }
        committed = read_all(s, "replayed");
        ++st.histories;
        return s;
    }

    std::vector<Step> transactions(int batch) {
        std::vector<Step> out;
        out.push_back(Step{});  // nothing changed
        std::vector<std::vector<int>> cur{{}};
        int M = std::min<int>(moves.size(), b.max_moves);
        for (int k = 0; k < batch; ++k) {
            std::vector<std::vector<int>> nxt;
            for (auto& c : cur)
                for (int i = 0; i < M; ++i) {
                    auto d = c;
                    d.push_back(i);
                    nxt.push_back(d);
                }
            for (auto& c : nxt) {
                Step t;
                t.moves = c;
                out.push_back(t);
            }
            cur = std::move(nxt);
        }
        return out;
    }

    // batches of three and four moves that grow, shrink and change an array (growing and shrinking back, repeatedly)
    void add_long_batches(std::vector<Step>& out) {
        std::vector<int> core;
        int other = -1;
        for (size_t i = 0; i < moves.size(); ++i) {
            const auto& d = m.decs[moves[i].first];
            const std::string& n = d.moves[moves[i].second].name;
            auto have = [&](const std::string& what) {
                for (int k : core)
                    if (m.decs[moves[k].first].moves[moves[k].second].name.rfind(what, 0) == 0) return true;
                return false;
            };
            if (n.find("*5") != std::string::npos) continue;
            if (n.rfind("grow", 0) == 0 ? !have("grow") : n == "shrink" ? !have("shrink") : false) core.push_back(i);
            else if (n.rfind("pop_to_list(0,", 0) == 0 ? !have("pop_to_list(0,") : n.rfind("pop_to_list(1,", 0) == 0 ? !have("pop_to_list(1,") : false) core.push_back(i);
            else if (other < 0 && !core.empty() && moves[i].first == moves[core[0]].first) other = i;
        }
        if (core.size() < 2) return;
        if (core.size() > 3) core.resize(3);
        if (core.size() < 3 && other >= 0 && b.long_batches > 1) core.push_back(other);
        std::vector<std::vector<int>> cur{{}};
        for (int k = 1; k <= 4; ++k) {
            std::vector<std::vector<int>> nxt;
            for (auto& c : cur)
                for (int i : core) {
                    auto d = c;
                    d.push_back(i);
                    nxt.push_back(d);
                }
            cur = std::move(nxt);
            if (k >= 3)
                for (auto& c : cur) {
                    Step t;
                    t.moves = c;
                    out.push_back(t);
                }
        }
    }

    void explore() {
        if (!m.dangling.empty()) {
            fail(C17, "dangling", -1, m.dangling);
            return;
        }
        for (auto& [d, indexing] : m.refused) fail(indexing ? C15 : C05, "refused", -1, d);
        auto root = transactions(b.root_batch);
        auto inner = transactions(b.batch);
        size_t shorter = root.size();
        if (b.long_batches) add_long_batches(root);
        size_t nstarts = b.all_starts ? starts.size() : 1;
        for (size_t si = 0; si < nstarts && !stop(); ++si) explore_from(si, root, shorter, inner);
        if (sh) { sh->states = st.states; sh->transitions = st.transitions; sh->evals = st.evals; }
    }

    void explore_from(int si, const std::vector<Step>& root, size_t shorter, const std::vector<Step>& inner) {
        // phase A: at the root every transaction of the bounded batch, rejected, under every protocol variant
        set_hist(str(si, {}) + "|init");
        {
            Vals committed;
            State s = replay(si, {}, committed);
            compare(committed, scratch(starts[si]), C01, "initial");
            std::vector<Step> h;
            for (const Step& t0 : root) {
                for (int variant = 0; variant < 3; ++variant) {
                    if (variant && t0.moves.size() > 1 && b.root_batch > 1) continue;
                    Step t = t0;
                    t.accept = false;
                    t.variant = variant;
                    h.push_back(t);
                    // the history of a rejection is the whole list of rejections before it; record compactly
                    step(s, t, committed, str(si, h));
                    if (h.size() > 6) h.erase(h.begin());
                    if (stop()) return;
                }
            }
        }
        // phase B: breadth-first closure over distinct decision assignments, accepting
        std::set<std::string> seen{key(starts[si])};
        std::vector<std::vector<Step>> frontier{{}};
        st.states++;
        size_t head = 0;
        while (head < frontier.size()) {
            std::vector<Step> path = frontier[head++];
            bool is_root = path.empty();
            const auto& T = is_root ? root : inner;
            if (!is_root) {
                // from every reached assignment: every transaction rejected (in one live state)
                Vals committed;
                State s = replay(si, path, committed);
                for (const Step& t0 : inner) {
                    Step t = t0;
                    t.accept = false;
                    auto h = path;
                    h.push_back(t);
                    step(s, t, committed, str(si, h));
                    if (stop()) return;
                }
            }
            for (const Step& t0 : T) {
                Vals committed;
                State s = replay(si, path, committed);
                Step t = t0;
                t.accept = true;
                if (is_root && t.moves.size() == 1) t.variant = t.moves[0] % 3;
                auto h = path;
                h.push_back(t);
                if (!step(s, t, committed, str(si, h))) continue;
                if (stop()) return;
                st.depth = std::max(st.depth, (int)h.size());
                std::string k = key(m.contents(s));
                if (seen.insert(k).second) {
                    ++st.states;
                    if ((long)seen.size() <= b.max_states) frontier.push_back(h);
                }
                // phase C: sequences of accepted single moves on one live state, without merging: t, then each t2
                // (accepted, then a rejection of t), so that anything kept inside the nodes is exercised
                if (is_root && t.moves.size() == 1 && b.plain_depth >= 2) {
                    for (const Step& t2 : inner) {
                        Vals c2;
                        State s2 = replay(si, h, c2);
                        Step a = t2, r = t;
                        a.accept = true;
                        r.accept = false;
                        r.variant = 0;
                        auto h2 = h;
                        h2.push_back(a);
                        if (!step(s2, a, c2, str(si, h2))) continue;
                        h2.push_back(r);
                        step(s2, r, c2, str(si, h2));
                        if (b.plain_depth >= 3)
                            for (const Step& t3 : inner) {
                                Step x = t3;
                                x.accept = true;
                                auto h3 = h2;
                                h3.push_back(x);
                                step(s2, x, c2, str(si, h3));
                                if (stop()) return;
                            }
                        if (stop()) return;
                    }
                }
            }
        }
        if (b.rejected_then) explore_c02(si, std::vector<Step>(root.begin(), root.begin() + shorter), inner);
    }

    // C02 "indistinguishable afterwards": reject t1 then accept t2 must observe what t2 alone observes
    void explore_c02(int si, const std::vector<Step>& root, const std::vector<Step>& inner) {
        std::vector<Vals> base(inner.size());
        std::vector<std::vector<Vals>> probe(inner.size());
        std::vector<char> ok(inner.size());
        for (size_t j = 0; j < inner.size(); ++j) {
            State s = replay(si, {}, base[j]);
            Step t = inner[j];
            t.accept = true;
            ok[j] = step(s, t, base[j], str(si, {t}));
        }
        const auto& first = root.size() * inner.size() > (size_t)b.max_pairs ? inner : root;
        for (const Step& t1 : first)
            for (size_t j = 0; j < inner.size(); ++j) {
                if (!ok[j]) continue;
                Vals c;
                State s = replay(si, {}, c);
                Step r = t1, t = inner[j];
                r.accept = false;
                t.accept = true;
                if (!step(s, r, c, str(si, {r}))) break;
                step(s, t, c, str(si, {r, t}));
                compare(c, base[j], C02, "later-history");
                if (stop()) return;
            }
    }

    // every assignment of the decisions' (stated) domains, evaluated from scratch
    void explore_assignments(size_t cap) {
        std::vector<size_t> k(m.decs.size(), 0);
        size_t total = 1;
        for (auto& d : m.decs) total *= std::max<size_t>(1, d.all.size());
        if (total > cap) return;
        while (true) {
            std::vector<Content> cs;
            bool has = true;
            for (size_t i = 0; i < m.decs.size(); ++i) {
                if (m.decs[i].all.empty()) { has = false; break; }
                cs.push_back(m.decs[i].all[k[i]]);
            }
            if (!has) return;
            set_hist("assign:" + [&] { std::string r; for (auto& c : cs) r += str(c) + ";"; return r; }());
            scratch(cs);
            ++st.states;
            if (stop()) return;
            L i = (L)m.decs.size() - 1;
            for (; i >= 0; --i) {
                if (++k[i] < m.decs[i].all.size()) break;
                k[i] = 0;
            }
            if (i < 0) break;
        }
    }
};

}  // namespace vp
