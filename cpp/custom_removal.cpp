// C12/C13 on the graph itself: every program of up to N construction steps, with every objective, constraint list and
// set of held nodes; ordering, removal (heeding and ignoring listeners), and the objective and feasibility around it.
#include "customs.hpp"

namespace vp {

namespace {

struct StepSpec { int kind, a, b; };  // operands are positions in the list of array nodes
enum { ABS, LOGICAL, ADD, BINARY, INTEGER, CONSTANT, BITSETS, LISTS, LE, KINDS };

struct Built {
    Graph g;
    std::vector<dw::ArrayNode*> arr;  // every array node, in order of construction
    std::vector<Node*> all;           // every node, in order of construction
    std::vector<std::vector<int>> preds;  // positions in all
    std::vector<char> decision, pseudo;
    std::vector<int> arr_at;  // position in all of arr[i]
    int at(const Node* n) const {
        for (size_t i = 0; i < all.size(); ++i)
            if (all[i] == n) return i;
        return -1;
    }
    void node(Node* n, dw::ArrayNode* a, std::vector<int> p, bool dec = false, bool ps = false) {
        if (a) {
            arr.push_back(a);
            arr_at.push_back(all.size());
        }
        all.push_back(n);
        preds.push_back(p);
        decision.push_back(dec);
        pseudo.push_back(ps);
    }
    Built() {
        auto x = g.emplace_node<dw::IntegerNode>(std::initializer_list<ssize_t>{}, -2, 2);
        node(x, x, {}, true);
        auto b = g.emplace_node<dw::BinaryNode>(std::initializer_list<ssize_t>{});
        node(b, b, {}, true);
    }
    void step(const StepSpec& t) {
        int pa = t.a < (int)arr.size() ? arr_at[t.a] : 0, pb = t.b < (int)arr.size() ? arr_at[t.b] : 0;
        switch (t.kind) {
            case ABS: { auto n = g.emplace_node<dw::AbsoluteNode>(arr[t.a]); node(n, n, {pa}); break; }
            case LOGICAL: { auto n = g.emplace_node<dw::LogicalNode>(arr[t.a]); node(n, n, {pa}); break; }
            case ADD: { auto n = g.emplace_node<dw::AddNode>(arr[t.a], arr[t.b]); node(n, n, {pa, pb}); break; }
            case LE: { auto n = g.emplace_node<dw::LessEqualNode>(arr[t.a], arr[t.b]); node(n, n, {pa, pb}); break; }
            case BINARY: { auto n = g.emplace_node<dw::BinaryNode>(std::initializer_list<ssize_t>{}); node(n, n, {}, true); break; }
            case INTEGER: { auto n = g.emplace_node<dw::IntegerNode>(std::initializer_list<ssize_t>{}, 1, 3); node(n, n, {}, true); break; }
            case CONSTANT: { auto n = g.emplace_node<dw::ConstantNode>(1.0); node(n, n, {}); break; }
            case BITSETS: {
                auto n = g.emplace_node<dw::DisjointBitSetsNode>(1, 2);
                int p = all.size();
                node(n, nullptr, {}, true);
                for (int k = 0; k < 2; ++k) {
                    auto s = g.emplace_node<dw::DisjointBitSetNode>(n);
                    node(s, s, {p}, false, true);
                }
                break;
            }
            case LISTS: {
                auto n = g.emplace_node<dw::DisjointListsNode>(1, 1);
                int p = all.size();
                node(n, nullptr, {}, true);
                auto s = g.emplace_node<dw::DisjointListNode>(n);
                node(s, s, {p}, false, true);
                // the list's size, so that there is a scalar that depends on it
                p = all.size() - 1;
                auto z = g.emplace_node<dw::SizeNode>(s);
                node(z, z, {p});
                break;
            }
        }
    }
    bool scalar(int i) const { return arr[i]->size() == 1; }
};

std::vector<StepSpec> next_steps(const Built& b, bool last) {
    std::vector<StepSpec> out;
    int n = b.arr.size();
    for (int i = 0; i < n; ++i) {
        if (!b.scalar(i)) continue;
        out.push_back({ABS, i, 0});
        out.push_back({LOGICAL, i, 0});
        for (int j = i; j < n; ++j)
            if (b.scalar(j)) {
                out.push_back({ADD, j, i});
                if (last) out.push_back({LE, i, j});
            }
    }
    for (int k : {BINARY, INTEGER, CONSTANT, BITSETS, LISTS}) out.push_back({k, 0, 0});
    return out;
}

std::string text(const std::vector<StepSpec>& p) {
    static const char* names[] = {"abs", "logical", "add", "binary", "integer", "constant", "bitsets", "lists", "le"};
    std::string r;
    for (auto& s : p) r += std::string(names[s.kind]) + "(" + std::to_string(s.a) + "," + std::to_string(s.b) + ") ";
    return r;
}

struct Setting { int objective; std::vector<int> constraints; std::vector<int> held; bool ignore, sorted; };

void check(Ctx& c, unsigned prop, const std::vector<StepSpec>& prog, const Setting& z, const std::string& name) {
    Built b;
    for (auto& s : prog) b.step(s);
    if (z.objective >= 0) b.g.set_objective(b.arr[z.objective]);
    for (int k : z.constraints) b.g.add_constraint(b.arr[k]);
    std::vector<std::shared_ptr<bool>> handles;
    for (int k : z.held) handles.push_back(b.arr[k]->expired_ptr());
    const int N = b.all.size();
    // what must stay
    std::vector<char> keep(N);
    for (int i = 0; i < N; ++i) keep[i] = b.decision[i] || b.pseudo[i];
    if (z.objective >= 0) keep[b.arr_at[z.objective]] = 1;
    for (int k : z.constraints) keep[b.arr_at[k]] = 1;
    if (!z.ignore)
        for (int k : z.held) keep[b.arr_at[k]] = 1;
    for (int i = N; i-- > 0;)
        if (keep[i])
            for (int p : b.preds[i]) keep[p] = 1;
    int gone = 0;
    for (char k : keep) gone += !k;

    auto order = [&](const char* when) {
        const auto nodes = b.g.nodes();
        std::vector<int> pos(N, -1);
        int decs = 0;
        for (size_t i = 0; i < nodes.size(); ++i) {
            int at = b.at(nodes[i].get());
            if (at < 0 || pos[at] >= 0) { c.fail(prop, "nodes", name, std::string(when) + ": an unknown or repeated node"); return; }
            pos[at] = i;
            if (nodes[i]->topological_index() != (ssize_t)i) c.fail(prop, "index", name, std::string(when) + ": position and topological index differ");
            if (b.decision[at]) {
                if (decs != (int)i) c.fail(prop, "decisions", name, std::string(when) + ": a decision comes after another node");
                ++decs;
            }
        }
        int last = -1;
        for (int i = 0; i < N; ++i) {
            if (pos[i] < 0) continue;
            if (b.decision[i]) {
                if (pos[i] != last + 1) c.fail(prop, "decision-order", name, std::string(when) + ": the decisions are not in order of construction");
                last = pos[i];
            }
            for (int p : b.preds[i])
                if (pos[p] < 0 || pos[p] >= pos[i]) c.fail(prop, "order", name, std::string(when) + ": a node does not come after one it is computed from");
        }
        const auto ds = b.g.decisions();
        if ((int)ds.size() != decs) c.fail(prop, "decision-list", name, when);
        for (size_t i = 0; i < ds.size(); ++i)
            if (static_cast<const Node*>(ds[i]) != nodes[i].get()) c.fail(prop, "decision-list", name, when);
    };
    // two assignments of the decisions
    auto values = [&](int which, double& energy, bool& feasible) {
        std::vector<std::vector<double>> out(N);
        b.g.topological_sort();
        State s = b.g.empty_state();
        int k = 0;
        for (int i = 0; i < N; ++i) {
            if (!b.decision[i]) continue;
            if (auto p = dynamic_cast<dw::BinaryNode*>(b.all[i])) p->initialize_state(s, {(double)((which + k) % 2)});
            else if (auto p = dynamic_cast<dw::IntegerNode*>(b.all[i])) p->initialize_state(s, {(double)(p->lower_bound() + (which + 2 * k) % 3)});
            ++k;
        }
        b.g.initialize_state(s);
        for (auto& u : b.g.nodes()) {
            auto a = dynamic_cast<dw::Array*>(u.get());
            if (!a) continue;
            auto v = a->view(s);
            out[b.at(u.get())].assign(v.begin(), v.end());
        }
        energy = b.g.energy(s);
        feasible = b.g.feasible(s);
        return out;
    };
    auto judge = [&](const std::vector<std::vector<double>>& v, double e, bool f, const char* when) {
        double we = z.objective >= 0 ? v[b.arr_at[z.objective]][0] : 0;
        bool wf = true;
        for (int k : z.constraints) wf = wf && v[b.arr_at[k]][0];
        if (e != we) c.fail(prop, "energy", name, std::string(when) + ": the energy is " + std::to_string(e) + " instead of " + std::to_string(we));
        if (f != wf) c.fail(prop, "feasible", name, std::string(when) + ": feasible() is " + std::to_string(f));
    };
    std::vector<std::vector<std::vector<double>>> was(2);
    for (int w = 0; w < 2; ++w) {
        double e;
        bool f;
        was[w] = values(w, e, f);
        judge(was[w], e, f, "before");
    }
    if (prop == C12) order("before");
    if (!z.sorted) b.g.reset_topological_sort();
    const ssize_t n = b.g.remove_unused_nodes(z.ignore);
    ++c.st.transitions;
    if (prop == C12) {
        if (n != gone) c.fail(prop, "count", name, "reports " + std::to_string(n) + " removed, expected " + std::to_string(gone));
        if ((int)b.g.num_nodes() != N - gone) c.fail(prop, "number", name, std::to_string(b.g.num_nodes()) + " nodes left, expected " + std::to_string(N - gone));
        std::vector<char> left(N);
        for (auto& u : b.g.nodes()) {
            int at = b.at(u.get());
            if (at >= 0) left[at] = 1;
            else c.fail(prop, "unknown", name, "an unknown node is left");
        }
        for (int i = 0; i < N; ++i)
            if (left[i] != keep[i]) { c.fail(prop, left[i] ? "kept" : "removed", name, "node " + std::to_string(i)); return; }
        if (b.g.topologically_sorted()) c.fail(prop, "sorted", name, "still sorted after a removal");
        for (size_t i = 0; i < handles.size(); ++i)
            if (*handles[i] != !keep[b.arr_at[z.held[i]]]) c.fail(prop, "expired", name, "a held node's expiry is misreported");
        for (int i = 0; i < N; ++i) {
            if (!keep[i]) continue;
            std::multiset<int> want, got;
            for (int j = 0; j < N; ++j)
                if (keep[j])
                    for (int p : b.preds[j])
                        if (p == i) want.insert(j);
            for (auto& sv : b.all[i]->successors()) got.insert(b.at(sv.ptr));
            if (want != got) { c.fail(prop, "successors", name, "node " + std::to_string(i) + " has other successors"); return; }
            std::vector<int> ps;
            for (auto p : b.all[i]->predecessors()) ps.push_back(b.at(p));
            if (ps != b.preds[i]) c.fail(prop, "predecessors", name, "node " + std::to_string(i));
        }
    } else {
        std::vector<char> left(N);
        for (auto& u : b.g.nodes())
            if (int at = b.at(u.get()); at >= 0) left[at] = 1;
        // whatever is registered must be there, and everything it is computed from; the rest is the business of C12
        std::vector<char> needed(N);
        if (z.objective >= 0) needed[b.arr_at[z.objective]] = 1;
        for (int k : z.constraints) needed[b.arr_at[k]] = 1;
        for (int i = N - 1; i >= 0; --i)
            if (needed[i])
                for (int p : b.preds[i]) needed[p] = 1;
        for (int i = 0; i < N; ++i)
            if (needed[i] && !left[i]) { c.fail(prop, "registered", name, "node " + std::to_string(i) + " is gone although it is registered, or needed by one that is"); return; }
        for (int i = 0; i < N; ++i)
            if (keep[i] && !left[i]) return;
        for (int i = 0; i < N; ++i)
            if (left[i]) keep[i] = 1;
    }
    for (int w = 0; w < 2; ++w) {
        double e;
        bool f;
        auto v = values(w, e, f);
        judge(v, e, f, "after");
        for (int i = 0; i < N; ++i)
            if (keep[i] && v[i] != was[w][i]) c.fail(prop, "value", name, "node " + std::to_string(i) + " has another value");
    }
    if (prop == C12) {
        order("after");
        if (b.g.remove_unused_nodes(z.ignore) != 0) c.fail(prop, "again", name, "a second removal removes more");
    }
}

void settings(Ctx& c, unsigned prop, const std::vector<StepSpec>& prog, bool full) {
    Built b;
    for (auto& s : prog) b.step(s);
    std::string name = text(prog);
    std::vector<int> sc, lg, mid;
    for (int i = 0; i < (int)b.arr.size(); ++i) {
        if (b.scalar(i)) {
            sc.push_back(i);
            if (b.arr[i]->logical()) lg.push_back(i);
        }
        if (!b.decision[b.arr_at[i]]) mid.push_back(i);
    }
    std::vector<std::vector<int>> cons{{}};
    for (int i : lg) cons.push_back({i});
    for (int i : lg)
        for (int j : lg)
            if (full || (i == lg.back()) != (j == lg.back())) cons.push_back({i, j});
    std::vector<std::vector<int>> helds{{}};
    for (int i : mid) helds.push_back({i});
    if (mid.size() > 1) helds.push_back({mid[0], mid[1]});
    sc.insert(sc.begin(), -1);
    for (int o : sc)
        for (auto& k : cons)
            for (auto& h : helds)
                for (int ig = 0; ig < 2; ++ig) {
                    if (ig && h.empty()) continue;
                    Setting z{o, k, h, (bool)ig, (bool)((o + k.size()) % 2)};
                    std::string t = name + "objective " + std::to_string(o) + " constraints";
                    for (int x : k) t += " " + std::to_string(x);
                    t += " held";
                    for (int x : h) t += " " + std::to_string(x);
                    c.hist(t + (ig ? " ignoring listeners" : ""));
                    ++c.st.states;
                    ++c.st.histories;
                    check(c, prop, prog, z, t);
                    if (c.stop()) return;
                }
}

void programs(Ctx& c, unsigned prop, std::vector<StepSpec>& prog, int depth) {
    settings(c, prop, prog, depth > 0);
    if (c.stop() || depth == 0) return;
    Built b;
    for (auto& s : prog) b.step(s);
    for (auto& t : next_steps(b, depth == 1)) {
        prog.push_back(t);
        programs(c, prop, prog, depth - 1);
        prog.pop_back();
        if (c.stop()) return;
    }
}

}  // namespace

void removal_customs(std::vector<Custom>& out, int tier) {
    Built b;
    int k = 0;
    for (auto& t : next_steps(b, false)) {
        for (unsigned prop : {C12, C13})
            out.push_back({"graph/" + std::to_string(k), prop, [t, prop, tier](Ctx& c) {
                               std::vector<StepSpec> prog{t};
                               programs(c, prop, prog, tier ? 3 : 2);
                           }});
        ++k;
    }
}

}  // namespace vp
