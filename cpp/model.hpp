// A model under test: a real dwave::optimization::Graph plus, for every array node, an independent
// reference evaluator, and for every decision its domain, its moves and their specifications.
#pragma once
#include <map>
#include <memory>
#include <set>

#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes/collections.hpp"
#include "dwave-optimization/nodes/constants.hpp"
#include "dwave-optimization/nodes/flow.hpp"
#include "dwave-optimization/nodes/indexing.hpp"
#include "dwave-optimization/nodes/manipulation.hpp"
#include "dwave-optimization/nodes/mathematical.hpp"
#include "dwave-optimization/nodes/numbers.hpp"
#include "dwave-optimization/nodes/quadratic_model.hpp"
#include "dwave-optimization/nodes/testing.hpp"
#include "dwave-optimization/state.hpp"
#include "nd.hpp"

namespace vp {
namespace dw = dwave::optimization;
using dw::ArrayNode;
using dw::Graph;
using dw::Node;
using dw::State;

using Content = std::vector<std::vector<double>>;  // one row per array owned by the decision
using Vals = std::vector<ND>;

inline std::string str(const Content& c) {
    std::string r;
    for (auto& row : c) r += str(row);
    return r;
}

// What a node looks like through the public Array interface, read from buffer/shape/strides only.
inline ND read_node(const dw::Array* a, const State& state, std::string* err = nullptr) {
    ND r;
    auto sh = a->shape(state);
    auto st = a->strides();
    r.shape.assign(sh.begin(), sh.end());
    if (err) {
        if ((L)sh.size() != a->ndim()) *err = "shape(state) has ndim " + std::to_string(sh.size()) + " but ndim() is " + std::to_string(a->ndim());
        else if (sh.size() != st.size()) *err = "strides/shape length differ";
        for (L d : r.shape)
            if (d < 0 || d > 100000) *err = "bad dimension in shape(state) " + str(r.shape);
        if (err->empty() && a->size(state) != prod(r.shape))
            *err = "size(state)=" + std::to_string(a->size(state)) + " but shape(state)=" + str(r.shape);
        if (!err->empty()) return r;
        auto s0 = a->shape();
        for (size_t d = 0; d < r.shape.size(); ++d)
            if (!(d == 0 && s0[d] < 0) && s0[d] != r.shape[d]) *err = "shape()=" + str(Shape(s0.begin(), s0.end())) + " but shape(state)=" + str(r.shape);
        if (!err->empty()) return r;
    }
    L n = prod(r.shape);
    r.v.resize(n);
    if (n) {
        const double* b = a->buff(state);
        each_index(r.shape, [&](const Shape& k, L i) {
            L off = 0;
            for (size_t d = 0; d < k.size(); ++d) off += k[d] * (st[d] / (L)sizeof(double));
            r.v[i] = b[off];
        });
    }
    return r;
}

struct Rec {
    ArrayNode* node;
    std::string desc;
    std::function<ND(const Vals&)> ref;  // empty for decisions (filled from contents)
    int dec = -1, row = -1;              // if part of a decision
    bool indexing = false;
    std::vector<int> preds;
    bool exact = true;                   // values are computed without rounding
};

struct Move {
    std::string name;
    std::function<bool(const Content&)> enabled;
    std::function<void(State&)> apply;
    // specification of the move's effect on the visible contents; "" if as documented
    std::function<std::string(const Content&, const Content&)> post;
};

struct Dec {
    std::string desc;
    const Node* node = nullptr;
    const dw::Decision* decision = nullptr;
    std::vector<int> recs;
    Shape row_shape;  // for dynamic 2d+: trailing shape; for static: full shape
    bool dynamic = false;
    std::function<void(State&, const Content&)> init;
    std::function<std::string(const Content&)> domain;
    std::function<std::string(State&, const Content&)> access;  // the decision's own accessors and refusals against its contents
    std::vector<Move> moves;
    std::vector<Content> starts;
    std::vector<Content> all;  // complete (or stated) enumeration of the domain
};

inline std::string expect(const Content& got, const Content& want) {
    return got == want ? "" : "expected " + str(want) + " got " + str(got);
}

struct Model {
    Graph g;
    std::vector<Rec> recs;
    std::vector<Dec> decs;
    std::vector<const Node*> alive;  // nodes known to be in the graph
    std::string dangling;            // set if a failed construction left the graph inconsistent
    std::vector<std::pair<std::string, bool>> refused;  // well-formed expressions that were refused (desc, indexing)
    std::shared_ptr<int> told = std::make_shared<int>(-1);  // what the last move said about whether it changed anything
    int lean = 1;                    // 0: every move, 1: representative moves
    bool large = false;              // decisions too large to enumerate: no list of all assignments
    int objective = -1;
    std::vector<int> constraints;

    ArrayNode* N(int h) { return recs.at(h).node; }
    const std::string& D(int h) { return recs.at(h).desc; }

    int add(ArrayNode* n, std::string desc, std::function<ND(const Vals&)> f, std::vector<int> preds = {}, bool indexing = false) {
        bool exact = true;
        for (int p : preds) exact = exact && recs[p].exact;
        recs.push_back(Rec{n, std::move(desc), std::move(f), -1, -1, indexing, std::move(preds), exact});
        return (int)recs.size() - 1;
    }
    // Operators that are discontinuous in an operand are only built over operands that are computed
    // exactly: otherwise a legitimate last-digit difference becomes a different value.
    static bool discontinuous(const std::string& op) {
        static const std::set<std::string> t{"logical", "not", "and", "or", "xor", "eq", "le", "mod", "all", "any"};
        return t.count(op) > 0;
    }
    static bool rounds(const std::string& op) { return op == "sqrt" || op == "div"; }
    bool refuse(const std::string& op, const std::vector<int>& as) const {
        for (int a : as)
            if (a < 0) return true;
        if (discontinuous(op))
            for (int a : as)
                if (!recs[a].exact) return true;
        return false;
    }
    int mark(const std::string& op, int h) {
        double big = std::max(std::fabs(recs[h].node->min()), std::fabs(recs[h].node->max()));
        if (rounds(op) || ((op == "prod" || op == "nmul") && !(big < 1e15))) recs[h].exact = false;
        return h;
    }

    // `well` says that the operands are plainly compatible, so that the construction must succeed; in
    // every other case it may be refused, and then there is nothing to check.
    template <class F>
    ArrayNode* attempt(bool well, bool indexing, const std::string& desc, F f) {
        try {
            return f();
        } catch (const std::exception& e) {
            check_links();
            if (well) refused.push_back({desc + " was refused: " + e.what(), indexing});
            return nullptr;
        }
    }
    static bool same_shape(const ArrayNode* p, const ArrayNode* q) {
        return !p->dynamic() && !q->dynamic() && std::ranges::equal(p->shape(), q->shape());
    }
    // every successor entry must be a node of this graph (a failed constructor must not register itself)
    void check_links() {
        std::set<const Node*> in;
        for (auto& n : g.nodes()) in.insert(n.get());
        for (auto& n : g.nodes())
            for (auto& s : n->successors())
                if (!in.count(s.ptr)) dangling = "a failed construction left a dangling successor";
    }

    // ---------------------------------------------------------------- decisions
    int dec_array(Dec d, ArrayNode* n, std::string desc);

    static void enumerate(L n, const std::vector<double>& vals, std::vector<Content>& out, size_t cap = 100000);

    template <class T>
    void number_common(Dec& d, T* n, L size, double lo, double hi);

    int binary(Shape shape);

    int integer(Shape shape, int lb, int ub, std::vector<double> values = {});

    static std::string distinct(const std::vector<double>& v, L n);

    template <class T>
    Dec collection(T* n, L N, L mn, L mx);

    int list(L n);
    int list(L n, L mn, L mx);
    int set(L n, L mn, L mx);

    // returns handle of the first set; sets are consecutive handles
    int disjoint_bits(L n, L k);

    int disjoint_lists(L n, L k);

    // dynamic array whose first axis grows and shrinks; trailing shape `row` ({} -> 1d)
    int dyn(Shape row, std::vector<double> values, bool integral, L minrows, L maxrows, bool with_sizeinfo = true);

    // keep about `keep` of the last decision's moves, evenly spread (growing, shrinking and wholesale moves stay), and
    // add bursts of growing and shrinking
    void trim(size_t keep);

    // ---------------------------------------------------------------- constants
    int constant(Shape shape, std::vector<double> v);
    int constant(double x) { return constant({}, {x}); }

    // ---------------------------------------------------------------- operations
    using Make1 = ArrayNode* (*)(Graph&, ArrayNode*);
    using Make2 = ArrayNode* (*)(Graph&, ArrayNode*, ArrayNode*);
    using MakeN = ArrayNode* (*)(Graph&, std::vector<ArrayNode*>&, bool incremental);
    using MakeR = ArrayNode* (*)(Graph&, ArrayNode*, std::optional<double>);
    int unary_(const char* name, int a, double (*f)(double), Make1 make);
    int binop_(const char* name, int a, int b, double (*f)(double, double), Make2 make);
    int nary_(const char* name, std::vector<int> as, double (*f)(double, double), bool incremental, MakeN make);
    int reduce_(const char* name, int a, std::optional<double> init, std::optional<double> identity, double (*f)(double, double), MakeR make);
    template <class T>
    int unary(const char* name, int a, double (*f)(double)) {
        return unary_(name, a, f, [](Graph& g, ArrayNode* p) -> ArrayNode* { return g.emplace_node<T>(p); });
    }
    template <class T>
    int binop(const char* name, int a, int b, double (*f)(double, double)) {
        return binop_(name, a, b, f, [](Graph& g, ArrayNode* p, ArrayNode* q) -> ArrayNode* { return g.emplace_node<T>(p, q); });
    }
    template <class T>
    int nary(const char* name, std::vector<int> as, double (*f)(double, double), bool incremental = false) {
        return nary_(name, as, f, incremental, [](Graph& g, std::vector<ArrayNode*>& ps, bool inc) -> ArrayNode* {
            if (inc) {
                // build from the first operand and append the others
                T* t = g.emplace_node<T>(ps[0]);
                for (size_t i = 1; i < ps.size(); ++i) t->add_node(ps[i]);
                return t;
            }
            return g.emplace_node<T>(std::span<ArrayNode*>(ps));
        });
    }
    // identity: value for an empty array without initial
    template <class T>
    int reduce(const char* name, int a, std::optional<double> init, std::optional<double> identity, double (*f)(double, double)) {
        return reduce_(name, a, init, identity, f, [](Graph& g, ArrayNode* p, std::optional<double> i) -> ArrayNode* {
            if (i) return g.emplace_node<T>(p, *i);
            return g.emplace_node<T>(p);
        });
    }
    int partial_sum(int a, L axis, std::optional<double> init);
    int where(int c, int x, int y);
    int concatenate(std::vector<int> as, L axis);
    int reshape_(int a, Shape s);
    int size(int a);
    int basic(int a, std::vector<BasicIdx> ix);
    int advanced(int a, std::vector<int> ix);
    int permutation(int a, int order);
    // quadratic model: linear h, pairs (u,v,b) incl. squares u==v
    int qm(int a, std::vector<double> h, std::vector<std::array<double, 3>> q);

    // ---------------------------------------------------------------- evaluation
    Content contents(const State& s, const Dec& d) const {
        Content c;
        for (int h : d.recs) c.push_back(read_node(recs[h].node, s).v);
        return c;
    }
    std::vector<Content> contents(const State& s) const {
        std::vector<Content> r;
        for (auto& d : decs) r.push_back(contents(s, d));
        return r;
    }
    Vals evaluate(const std::vector<Content>& cs) const {
        Vals v(recs.size());
        for (size_t i = 0; i < recs.size(); ++i) {
            const Rec& r = recs[i];
            if (r.dec >= 0) {
                const Dec& d = decs[r.dec];
                v[i].v = cs[r.dec][r.row];
                Shape rs(r.node->shape().begin(), r.node->shape().end());
                if (rs.size() && rs[0] < 0) {
                    L w = 1;
                    for (size_t k = 1; k < rs.size(); ++k) w *= rs[k];
                    rs[0] = w ? v[i].size() / w : 0;
                }
                (void)d;
                v[i].shape = rs;
            } else
                v[i] = r.ref(v);
        }
        return v;
    }
    State fresh(const std::vector<Content>& cs) {
        State s = g.empty_state();
        for (size_t i = 0; i < decs.size(); ++i) decs[i].init(s, cs[i]);
        g.initialize_state(s);
        return s;
    }
};

// the operators ------------------------------------------------------------------------------------
namespace f {
inline double abs(double x) { return std::fabs(x); }
inline double logical(double x) { return x != 0; }
inline double neg(double x) { return -x; }
inline double not_(double x) { return x == 0; }
inline double square(double x) { return x * x; }
inline double sqrt(double x) { return std::sqrt(x); }
inline double add(double x, double y) { return x + y; }
inline double and_(double x, double y) { return x != 0 && y != 0; }
inline double div(double x, double y) { return x / y; }
inline double eq(double x, double y) { return x == y; }
inline double le(double x, double y) { return x <= y; }
inline double mul(double x, double y) { return x * y; }
inline double max(double x, double y) { return x > y ? x : y; }
inline double min(double x, double y) { return x < y ? x : y; }
inline double mod(double x, double y) { return y == 0 ? 0 : x - y * std::floor(x / y); }
inline double or_(double x, double y) { return x != 0 || y != 0; }
inline double sub(double x, double y) { return x - y; }
inline double xor_(double x, double y) { return (x != 0) != (y != 0); }
}  // namespace f

}  // namespace vp
