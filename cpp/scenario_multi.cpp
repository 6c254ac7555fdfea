#include "scenarios.hpp"

namespace vp {

// scenarios with several decisions changing independently or together
void multi_scenarios(std::vector<Scenario>& out) {
    auto S = [&](std::string n, std::function<void(Model&)> f) { out.push_back({"multi/" + n, f, 0}); };
    auto bin_all = [](Model& m, int a, int b) {
#define X(T, NAME, FN) m.binop<dw::T>(NAME, a, b, FN);
        VP_BINOPS(X)
#undef X
    };
    S("int2_int2", [=](Model& m) {
        int a = m.integer({2}, -1, 2, {-1, 0, 2}), b = m.integer({2}, 1, 3, {1, 3});
        bin_all(m, a, b);
        bin_all(m, b, a);
        int nb = m.unary<dw::NegativeNode>("neg", b, f::neg);
        bin_all(m, a, nb);
        m.concatenate({a, b, a}, 0);
        m.nary<dw::NaryMultiplyNode>("nmul", {a, b, nb}, f::mul);
        m.nary<dw::NaryAddNode>("nadd", {a, b, a}, f::add);
        m.nary<dw::NaryMaximumNode>("nmax", {a, b, nb}, f::max);
        m.nary<dw::NaryMinimumNode>("nmin", {a, b, nb}, f::min);
    });
    S("int0_int2", [=](Model& m) {
        int a = m.integer({}, -1, 2, {-1, 0, 2}), b = m.integer({2}, 1, 3, {1, 3});
        bin_all(m, a, b);
        bin_all(m, b, a);
        int c = m.binop<dw::LessEqualNode>("le", a, m.constant(0), f::le);
        int nb = m.unary<dw::NegativeNode>("neg", b, f::neg);
        m.where(c, b, nb);
        m.where(a, nb, b);
    });
    S("int1_int0", [=](Model& m) {
        int a = m.integer({1}, -1, 2), b = m.integer({}, 1, 3);
        bin_all(m, a, b);
        bin_all(m, b, a);
    });
    S("int22_int22", [=](Model& m) {
        int a = m.integer({2, 2}, -1, 1, {-1, 0}), b = m.integer({2, 2}, 1, 3, {1, 3});
        bin_all(m, a, b);
        m.concatenate({a, b}, 0);
        m.concatenate({a, b}, 1);
        m.concatenate({b, a, b}, 1);
        int va = m.basic(a, {SliceSpec{}, SliceSpec{std::nullopt, std::nullopt, -1}});
        int vb = m.basic(b, {SliceSpec{std::nullopt, std::nullopt, -1}, SliceSpec{}});
        if (va >= 0 && vb >= 0) {
            bin_all(m, va, vb);
            m.concatenate({va, vb}, 0);
            m.concatenate({va, vb}, 1);
            m.nary<dw::NaryMultiplyNode>("nmul", {va, vb, a}, f::mul);
            m.nary<dw::NaryMaximumNode>("nmax", {va, vb, a}, f::max);
            m.nary<dw::NaryAddNode>("nadd", {vb, va, a}, f::add);
        }
        m.where(a, a, b);
        m.where(m.binop<dw::LessEqualNode>("le", a, b, f::le), b, a);
    });
    S("where3", [=](Model& m) {
        int c = m.binary({2}), x = m.integer({2}, -1, 1, {-1, 1}), y = m.integer({2}, 2, 3);
        int w = m.where(c, x, y);
        m.reduce<dw::SumNode>("sum", w, std::nullopt, 0.0, f::add);
        m.where(c, y, x);
        int c0 = m.basic(c, {0L});
        if (c0 >= 0) {
            int w2 = m.where(c0, x, y);
            m.reduce<dw::ProdNode>("prod", w2, std::nullopt, 1.0, f::mul);
        }
    });
    S("where_scalar", [=](Model& m) {
        int c = m.binary({}), x = m.integer({}, -1, 1), y = m.integer({}, 2, 3);
        int w = m.where(c, x, y);
        bin_all(m, w, x);
    });
    auto after = [=](Model& m, int w) {  // what is done with an array whose size varies
        if (w < 0) return;
        m.reduce<dw::SumNode>("sum", w, std::nullopt, 0.0, f::add);
        m.reduce<dw::MaxNode>("max", w, 0.0, std::nullopt, f::max);
        m.size(w);
        m.basic(w, {SliceSpec{1, std::nullopt, std::nullopt}});
        m.basic(w, {SliceSpec{-1, std::nullopt, std::nullopt}});
        m.unary<dw::SquareNode>("square", w, f::square);
        m.binop<dw::AddNode>("add", w, m.constant(1), f::add);
    };
    S("where_dynamic", [=](Model& m) {
        int c = m.binary({}), x = m.set(2, 0, 2), y = m.list(3, 0, 3);
        int w = m.where(c, x, y);
        after(m, w);
        if (w >= 0) m.advanced(m.constant({3}, {4, -1, 7}), {w});
        after(m, m.where(c, y, x));
        int z = m.basic(y, {SliceSpec{1, std::nullopt, std::nullopt}});
        after(m, m.where(c, z, x));
        after(m, m.where(c, y, z));
        int big = m.binop<dw::LessEqualNode>("le", m.size(y), m.size(x), f::le);
        after(m, m.where(big, x, y));
        after(m, m.where(big, z, m.where(c, x, y)));
    });
    S("where_one", [=](Model& m) {  // a condition with one element but axes of its own
        int c = m.binary({1}), e = m.binary({1, 1}), x = m.integer({2}, 0, 1), y = m.list(2, 0, 2), z = m.set(2, 0, 2);
        m.where(c, x, m.constant({2}, {5, 7}));
        m.where(e, x, m.constant({2}, {5, 7}));
        after(m, m.where(c, y, z));
        after(m, m.where(e, z, y));
    });
    S("where_dynamic_rows", [=](Model& m) {
        int c = m.binary({}), x = m.set(2, 0, 2), y = m.list(3, 0, 3), t = m.constant({3, 2}, {4, -1, 7, 0, 2, 5}), u = m.integer({2, 2}, 0, 1, {0, 1});
        int a = m.advanced(t, {y, -1}), b = m.advanced(u, {x, -1});
        int w = m.where(c, a, b);
        if (w >= 0) {
            m.reduce<dw::SumNode>("sum", w, std::nullopt, 0.0, f::add);
            m.size(w);
            m.basic(w, {SliceSpec{}, 0L});
            m.basic(w, {SliceSpec{1, std::nullopt, std::nullopt}, SliceSpec{}});
            m.unary<dw::NegativeNode>("neg", w, f::neg);
        }
    });
    S("nary_prod", [=](Model& m) {
        int a = m.integer({2}, 0, 2, {0, 2}), b = m.integer({2}, 0, 3, {0, 3}), c = m.integer({2}, -1, 1, {-1, 1});
        m.nary<dw::NaryMultiplyNode>("nmul", {a, b, c}, f::mul);
        m.nary<dw::NaryMultiplyNode>("nmul", {a, b, a}, f::mul, true);
        m.nary<dw::NaryMaximumNode>("nmax", {a, b, c}, f::max);
        m.nary<dw::NaryMinimumNode>("nmin", {a, b, c}, f::min);
        m.nary<dw::NaryAddNode>("nadd", {a, b, c}, f::add);
    });
    S("nary_scalar", [=](Model& m) {
        int a = m.integer({}, 0, 2), b = m.integer({}, 0, 3, {0, 3}), c = m.binary({});
        m.nary<dw::NaryMultiplyNode>("nmul", {a, b, c}, f::mul);
        m.nary<dw::NaryMaximumNode>("nmax", {a, b, c}, f::max);
        m.nary<dw::NaryMinimumNode>("nmin", {a, b, c}, f::min);
        m.nary<dw::NaryAddNode>("nadd", {a, b, c}, f::add);
    });
    S("adv_two_index", [=](Model& m) {
        int t = m.constant({3, 3}, {0, 1, 2, 3, 4, 5, 6, 7, 8});
        int a = m.integer({2}, 0, 2), b = m.integer({2}, 0, 2, {0, 2});
        m.advanced(t, {a, b});
        m.advanced(t, {b, a});
        m.advanced(t, {-1, a});
        m.advanced(t, {b, -1});
    });
    S("adv_table_and_index", [=](Model& m) {
        int t = m.integer({3}, -1, 2, {-1, 2}), a = m.integer({2}, 0, 2, {0, 1, 2});
        int r = m.advanced(t, {a});
        m.reduce<dw::SumNode>("sum", r, std::nullopt, 0.0, f::add);
    });
    S("adv_table2d_and_index", [=](Model& m) {
        int t = m.integer({2, 3}, 0, 2, {0, 2}), a = m.integer({2}, 0, 1), b = m.integer({2}, 0, 2, {0, 2});
        m.advanced(t, {a, b});
        m.advanced(t, {a, -1});
        m.advanced(t, {-1, b});
    });
    S("adv_dynamic_index", [=](Model& m) {
        int t = m.integer({4}, 0, 5, {0, 5}), l = m.list(4, 0, 4);
        int r = m.advanced(t, {l});
        m.reduce<dw::SumNode>("sum", r, std::nullopt, 0.0, f::add);
        m.reduce<dw::MaxNode>("max", r, 0.0, std::nullopt, f::max);
        m.size(r);
    });
    S("adv_dynamic_table2d", [=](Model& m) {
        int t = m.integer({3, 2}, 0, 5, {0, 5}), l = m.set(3, 0, 3);
        m.advanced(t, {l, -1});
    });
    S("adv_dynamic_table3d", [=](Model& m) {
        int t = m.binary({2, 2, 2}), l = m.list(2, 0, 2);
        m.advanced(t, {l, -1, -1});
        m.advanced(t, {-1, l, -1});
        m.advanced(t, {l, -1, l});
        m.advanced(t, {l, l, -1});
        m.advanced(t, {-1, l, l});
        m.advanced(t, {l, l, l});
    });
    S("adv_dyn_array_static_index", [=](Model& m) {
        int t = m.dyn({2}, {0, 1, 2}, true, 0, 3), a = m.integer({3}, 0, 1);
        int r = m.advanced(t, {-1, a});
        if (r >= 0) {
            m.reduce<dw::SumNode>("sum", r, std::nullopt, 0.0, f::add);
            m.size(r);
        }
    });
    S("adv_dyn3_array_static_index", [=](Model& m) {
        int t = m.dyn({2, 2}, {0, 1}, true, 0, 2), a = m.integer({2}, 0, 1);
        m.advanced(t, {-1, a, -1});
        m.advanced(t, {-1, -1, a});
        m.advanced(t, {-1, a, a});
    });
    S("adv_index_2d", [=](Model& m) {
        int t = m.integer({3}, 0, 5, {0, 5}), a = m.integer({2, 2}, 0, 2, {0, 2});
        m.advanced(t, {a});
        int t2 = m.constant({3, 2}, {0, 1, 2, 3, 4, 5});
        m.advanced(t2, {a, -1});
        int t3 = m.constant({2, 3}, {0, 1, 2, 3, 4, 5});
        m.advanced(t3, {-1, a});
    });
    S("slice_of_dlists", [=](Model& m) {
        int a = m.disjoint_lists(4, 2);
        int t = m.constant({4, 4}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15});
        for (int k = 0; k < 2; ++k) {
            int x = m.basic(a + k, {SliceSpec{std::nullopt, -1, std::nullopt}});
            int y = m.basic(a + k, {SliceSpec{1, std::nullopt, std::nullopt}});
            if (x >= 0 && y >= 0) {
                int d = m.advanced(t, {x, y});
                if (d >= 0) m.reduce<dw::SumNode>("sum", d, std::nullopt, 0.0, f::add);
            }
            int first = m.basic(a + k, {SliceSpec{std::nullopt, 1, std::nullopt}});
            int last = m.basic(a + k, {SliceSpec{-1, std::nullopt, std::nullopt}});
            int t1 = m.constant({4}, {3, 1, 4, 1});
            if (first >= 0) m.reduce<dw::SumNode>("sum", m.advanced(t1, {first}), std::nullopt, 0.0, f::add);
            if (last >= 0) m.reduce<dw::SumNode>("sum", m.advanced(t1, {last}), std::nullopt, 0.0, f::add);
        }
    });
    S("objective", [=](Model& m) {
        int x = m.integer({2}, -1, 2, {-1, 0, 2}), l = m.list(3);
        int t = m.constant({3}, {2, -1, 5});
        int w = m.advanced(t, {l});
        int s = m.reduce<dw::SumNode>("sum", w, std::nullopt, 0.0, f::add);
        int sx = m.reduce<dw::SumNode>("sum", x, std::nullopt, 0.0, f::add);
        int fst = m.basic(w, {0L});
        int o = m.binop<dw::MultiplyNode>("mul", fst, sx, f::mul);
        int c1 = m.binop<dw::LessEqualNode>("le", sx, m.constant(2), f::le);
        int c2 = m.binop<dw::LessEqualNode>("le", m.basic(l, {0L}), m.constant(1), f::le);
        int c3 = m.binop<dw::OrNode>("or", c1, c2, f::or_);
        m.g.set_objective(m.N(s));
        m.g.set_objective(m.N(o));
        m.objective = o;
        for (int c : {c1, c2, c3}) {
            m.g.add_constraint(m.N(c));
            m.constraints.push_back(c);
        }
    });
    S("objective_decision", [=](Model& m) {
        int x = m.integer({}, -1, 2), y = m.binary({});
        m.g.set_objective(m.N(x));
        m.objective = x;
        m.g.add_constraint(m.N(y));
        m.constraints.push_back(y);
        int e = m.binop<dw::EqualNode>("eq", x, y, f::eq);
        m.g.add_constraint(m.N(e));
        m.constraints.push_back(e);
    });
    S("objective_arrays1", [=](Model& m) {
        int x = m.integer({1}, -1, 2), y = m.integer({1, 1}, 0, 1);
        int o = m.binop<dw::AddNode>("add", x, m.constant(1), f::add);
        int c = m.binop<dw::LessEqualNode>("le", y, m.constant(0), f::le);
        m.g.set_objective(m.N(o));
        m.objective = o;
        m.g.add_constraint(m.N(c));
        m.constraints.push_back(c);
    });
    S("no_objective", [=](Model& m) {
        int y = m.binary({2});
        int c = m.reduce<dw::AllNode>("all", y, std::nullopt, 1.0, f::and_), d = m.reduce<dw::AnyNode>("any", y, std::nullopt, 0.0, f::or_);
        for (int k : {c, d, c}) {
            m.g.add_constraint(m.N(k));
            m.constraints.push_back(k);
        }
    });
    S("dbits_weights", [=](Model& m) {
        int a = m.disjoint_bits(3, 2);
        int w = m.constant({3}, {3, 4, 5});
        for (int k = 0; k < 2; ++k) {
            int p = m.binop<dw::MultiplyNode>("mul", a + k, w, f::mul);
            int s = m.reduce<dw::SumNode>("sum", p, std::nullopt, 0.0, f::add);
            m.binop<dw::LessEqualNode>("le", s, m.constant(7), f::le);
            m.reduce<dw::AnyNode>("any", a + k, std::nullopt, 0.0, f::or_);
        }
        m.binop<dw::AddNode>("add", a, a + 1, f::add);
        m.concatenate({a, a + 1}, 0);
    });
    S("qm2", [=](Model& m) {
        int x = m.integer({3}, -1, 2, {-1, 0, 2}), y = m.binary({3});
        m.qm(x, {1, -2, 0.5}, {{0, 1, 2}, {1, 2, -3}, {0, 0, 1}, {2, 2, -0.5}});
        m.qm(y, {1, -2, 0.5}, {{0, 1, 2}, {1, 2, -3}, {0, 2, 1}});
        int v = m.basic(x, {SliceSpec{std::nullopt, std::nullopt, -1}});
        if (v >= 0) m.qm(v, {1, -2, 0.5}, {{0, 1, 2}, {1, 2, -3}});
        int z = m.binop<dw::AddNode>("add", x, y, f::add);
        m.qm(z, {1, -2, 0.5}, {{0, 1, 2}, {1, 2, -3}, {1, 1, 1}});
        m.qm(x, {0, 0, 0}, {});
    });
    S("deep_chain", [=](Model& m) {
        int x = m.binary({3});
        int h = x;
        for (int i = 0; i < 6; ++i) {
            int s = m.reduce<dw::SumNode>("sum", h, std::nullopt, 0.0, f::add);
            h = m.binop<dw::AddNode>("add", h, s, f::add);
            if (i % 2) h = m.binop<dw::ModulusNode>("mod", h, m.constant(5), f::mod);
        }
        m.reduce<dw::MaxNode>("max", h, std::nullopt, std::nullopt, f::max);
    });
    S("isolated", [=](Model& m) {  // decisions without successors, and constants only
        m.binary({2});
        m.list(3);
        int c = m.constant({2}, {1, 2});
        m.reduce<dw::SumNode>("sum", c, std::nullopt, 0.0, f::add);
        m.set(2, 0, 2);
    });
    S("set_list_mix", [=](Model& m) {
        int s = m.set(3, 0, 3), l = m.list(3);
        int ss = m.reduce<dw::SumNode>("sum", s, std::nullopt, 0.0, f::add);
        bin_all(m, l, ss);
        int n = m.size(s);
        bin_all(m, l, n);
        int t = m.advanced(l, {s});
        if (t >= 0) {
            m.reduce<dw::SumNode>("sum", t, std::nullopt, 0.0, f::add);
            m.reduce<dw::MinNode>("min", t, 9.0, std::nullopt, f::min);
            m.reduce<dw::ProdNode>("prod", t, std::nullopt, 1.0, f::mul);
        }
    });
    // what the problem generators build, with the moves a solver makes on it
    auto hold = [](Model& m, int o, std::vector<int> cs) {
        if (o >= 0) {
            m.g.set_objective(m.N(o));
            m.objective = o;
        }
        for (int c : cs) {
            m.g.add_constraint(m.N(c));
            m.constraints.push_back(c);
        }
    };
    auto sum = [](Model& m, int h) { return m.reduce<dw::SumNode>("sum", h, std::nullopt, 0.0, f::add); };
    auto upto = [](int b) { return SliceSpec{std::nullopt, b, std::nullopt}; };
    auto from = [](int b) { return SliceSpec{b, std::nullopt, std::nullopt}; };
    S("tour", [=](Model& m) {
        int d = m.constant({4, 4}, {0, 1, 5, 2, 3, 0, 7, 4, 1, 6, 0, 8, 9, 2, 3, 0}), l = m.list(4);
        int legs = m.advanced(d, {m.basic(l, {upto(-1)}), m.basic(l, {from(1)})});
        int back = m.advanced(d, {m.basic(l, {from(-1)}), m.basic(l, {upto(1)})});
        hold(m, m.binop<dw::AddNode>("add", sum(m, legs), sum(m, back), f::add), {});
    });
    S("assignment", [=](Model& m) {
        int w = m.constant({4, 4}, {0, 1, 5, 2, 3, 0, 7, 4, 1, 6, 0, 8, 9, 2, 3, 0}), l = m.list(4);
        int d = m.constant({4, 4}, {0, 2, 1, 0, 0, 0, 3, 1, 4, 0, 0, 2, 1, 5, 1, 0});
        int p = m.advanced(m.advanced(d, {l, -1}), {-1, l});
        hold(m, sum(m, m.binop<dw::MultiplyNode>("mul", w, p, f::mul)), {});
        sum(m, m.advanced(w, {l, l}));
    });
    S("flow_shop", [=](Model& m) {
        int t = m.constant({2, 3}, {3, 1, 2, 2, 4, 1}), l = m.list(3);
        int a = m.advanced(m.basic(t, {0L, SliceSpec{}}), {l}), b = m.advanced(m.basic(t, {1L, SliceSpec{}}), {l});
        if (a < 0 || b < 0) return;
        int ea = m.basic(a, {0L}), eb = m.binop<dw::AddNode>("add", ea, m.basic(b, {0L}), f::add);
        for (L j = 1; j < 3; ++j) {
            ea = m.binop<dw::AddNode>("add", ea, m.basic(a, {j}), f::add);
            eb = m.binop<dw::AddNode>("add", m.binop<dw::MaximumNode>("maximum", ea, eb, f::max), m.basic(b, {j}), f::add);
        }
        hold(m, eb, {});
    });
    S("job_shop", [=](Model& m) {
        int t = m.integer({2, 2}, 0, 4, {0, 2, 4}), d = m.constant({2, 2}, {2, 3, 1, 2});
        int e = m.binop<dw::AddNode>("add", t, d, f::add);
        std::vector<int> cs;
        for (L j = 0; j < 2; ++j) cs.push_back(m.binop<dw::LessEqualNode>("le", m.basic(e, {j, 0L}), m.basic(t, {j, 1L}), f::le));
        for (L k = 0; k < 2; ++k)
            cs.push_back(m.binop<dw::OrNode>("or", m.binop<dw::LessEqualNode>("le", m.basic(e, {0L, k}), m.basic(t, {1L, 1 - k}), f::le),
                                             m.binop<dw::LessEqualNode>("le", m.basic(e, {1L, 1 - k}), m.basic(t, {0L, k}), f::le), f::or_));
        hold(m, m.reduce<dw::MaxNode>("max", e, std::nullopt, std::nullopt, f::max), cs);
    });
    S("routes", [=](Model& m) {
        int r = m.disjoint_lists(3, 2);
        int d = m.constant({3, 3}, {0, 4, 1, 2, 0, 5, 7, 3, 0}), depot = m.constant({3}, {6, 2, 3}), need = m.constant({3}, {2, 1, 2});
        std::vector<int> cost, cs;
        for (int k = 0; k < 2; ++k) {
            cs.push_back(m.binop<dw::LessEqualNode>("le", sum(m, m.advanced(need, {r + k})), m.constant(3), f::le));
            cost.push_back(sum(m, m.advanced(depot, {m.basic(r + k, {upto(1)})})));
            cost.push_back(sum(m, m.advanced(depot, {m.basic(r + k, {from(-1)})})));
            cost.push_back(sum(m, m.advanced(d, {m.basic(r + k, {upto(-1)}), m.basic(r + k, {from(1)})})));
        }
        hold(m, m.nary<dw::NaryAddNode>("nadd", cost, f::add), cs);
    });
    S("packing", [=](Model& m) {
        int w = m.constant({4}, {3, 1, 4, 2}), s = m.set(4, 0, 4);
        int load = sum(m, m.advanced(w, {s})), value = sum(m, m.advanced(m.constant({4}, {5, 4, 3, 7}), {s}));
        hold(m, m.unary<dw::NegativeNode>("neg", value, f::neg), {m.binop<dw::LessEqualNode>("le", load, m.constant(6), f::le)});
    });
}

}  // namespace vp
