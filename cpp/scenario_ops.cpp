#include "scenarios.hpp"

namespace vp {

std::vector<Op> all_ops() {
    std::vector<Op> ops;
    auto one = [&](std::string name, std::function<int(Model&, int)> fn) {
        ops.push_back({name, [fn](Model& m, int h, std::vector<int>& out) {
                           int r = fn(m, h);
                           if (r >= 0) out.push_back(r);
                       }});
    };
    // ---- unary
    one("abs", [](Model& m, int h) { return m.unary<dw::AbsoluteNode>("abs", h, f::abs); });
    one("logical", [](Model& m, int h) { return m.unary<dw::LogicalNode>("logical", h, f::logical); });
    one("neg", [](Model& m, int h) { return m.unary<dw::NegativeNode>("neg", h, f::neg); });
    one("not", [](Model& m, int h) { return m.unary<dw::NotNode>("not", h, f::not_); });
    one("square", [](Model& m, int h) { return m.unary<dw::SquareNode>("square", h, f::square); });
    one("sqrt", [](Model& m, int h) { return m.N(h)->min() < 0 ? -1 : m.unary<dw::SquareRootNode>("sqrt", h, f::sqrt); });
    // ---- reductions
    auto red = [&](auto tag, const char* name, std::optional<double> id, double (*fn)(double, double), std::vector<double> inits) {
        using T = typename decltype(tag)::type;
        std::string nm = name;
        one(nm, [name, id, fn](Model& m, int h) { return m.reduce<T>(name, h, std::nullopt, id, fn); });
        for (double i : inits) one(nm + "_i", [name, id, fn, i](Model& m, int h) { return m.reduce<T>(name, h, i, id, fn); });
    };
    red(std::type_identity<dw::AllNode>(), "all", 1.0, f::and_, {0, 1});
    red(std::type_identity<dw::AnyNode>(), "any", 0.0, f::or_, {0, 1});
    red(std::type_identity<dw::MaxNode>(), "max", std::nullopt, f::max, {-10, 1});
    red(std::type_identity<dw::MinNode>(), "min", std::nullopt, f::min, {10, 1});
    red(std::type_identity<dw::ProdNode>(), "prod", 1.0, f::mul, {2, 0});
    red(std::type_identity<dw::SumNode>(), "sum", 0.0, f::add, {5, -1.5});
    for (L ax = 0; ax < 3; ++ax) {
        one("psum" + std::to_string(ax), [ax](Model& m, int h) { return m.partial_sum(h, ax, std::nullopt); });
        one("psum_i" + std::to_string(ax), [ax](Model& m, int h) { return m.partial_sum(h, ax, 3.0); });
    }
    // ---- binary with constants, with itself, with things derived from itself
#define X(T, NAME, FN)                                                                                                   \
    one(std::string(NAME) + "_c", [](Model& m, int h) { return m.binop<dw::T>(NAME, h, m.constant(2), FN); });          \
    one(std::string(NAME) + "_cneg", [](Model& m, int h) { return m.binop<dw::T>(NAME, h, m.constant({1}, {-1.5}), FN); }); \
    one(std::string(NAME) + "_c2d", [](Model& m, int h) { return m.binop<dw::T>(NAME, h, m.constant({1, 1}, {3}), FN); }); \
    one(std::string("c3d_") + NAME, [](Model& m, int h) { return m.binop<dw::T>(NAME, m.constant({1, 1, 1}, {3}), h, FN); }); \
    one(std::string("c_") + NAME, [](Model& m, int h) { return m.binop<dw::T>(NAME, m.constant(1), h, FN); });          \
    one(std::string(NAME) + "_arr", [](Model& m, int h) {                                                               \
        if (m.N(h)->dynamic() || m.N(h)->size() < 2) return -1;                                                         \
        Shape s = static_shape(m, h);                                                                                   \
        if (s.size() > 4) return -1;                                                                                    \
        return m.binop<dw::T>(NAME, h, m.constant(s, std::string(NAME) == "div" ? ramp(prod(s), 4) : ramp(prod(s))), FN); \
    });                                                                                                                 \
    one(std::string("arr_") + NAME, [](Model& m, int h) {                                                               \
        if (m.N(h)->dynamic() || m.N(h)->size() < 2) return -1;                                                         \
        Shape s = static_shape(m, h);                                                                                   \
        if (s.size() > 4) return -1;                                                                                    \
        return m.binop<dw::T>(NAME, m.constant(s, ramp(prod(s), 1)), h, FN);                                            \
    });                                                                                                                 \
    one(std::string("scalar_") + NAME + "_wide", [](Model& m, int h) {                                                  \
        if (m.N(h)->size() != 1) return -1;                                                                             \
        return m.binop<dw::T>(NAME, h, m.constant({2, 2}, {1, -2, 3, 2}), FN);                                          \
    });                                                                                                                 \
    one(std::string("wide_") + NAME + "_scalar", [](Model& m, int h) {                                                  \
        if (m.N(h)->size() != 1) return -1;                                                                             \
        return m.binop<dw::T>(NAME, m.constant({2, 2}, {1, -2, 3, 2}), h, FN);                                          \
    });                                                                                                                 \
    one(std::string(NAME) + "_self", [](Model& m, int h) {                                                              \
        return m.N(h)->dynamic() ? -1 : m.binop<dw::T>(NAME, h, h, FN);                                                 \
    });                                                                                                                 \
    one(std::string(NAME) + "_diamond", [](Model& m, int h) {                                                           \
        if (m.N(h)->dynamic()) return -1;                                                                               \
        int n = m.unary<dw::AbsoluteNode>("abs", h, f::abs);                                                            \
        int k = m.binop<dw::AddNode>("add", n, m.constant(1), f::add);                                                  \
        return m.binop<dw::T>(NAME, h, k, FN);                                                                          \
    });                                                                                                                 \
    one(std::string(NAME) + "_sum", [](Model& m, int h) {                                                               \
        int n = m.reduce<dw::SumNode>("sum", h, std::nullopt, 0.0, f::add);                                             \
        if (std::string(NAME) == "div") {                                                                               \
            n = m.unary<dw::SquareNode>("square", n, f::square);                                                        \
            n = m.binop<dw::MaximumNode>("maximum", n, m.constant(0.5), f::max);                                        \
        }                                                                                                               \
        return m.binop<dw::T>(NAME, h, n, FN);                                                                          \
    });                                                                                                                 \
    one(std::string("sum_") + NAME, [](Model& m, int h) {                                                               \
        int n = m.reduce<dw::SumNode>("sum", h, std::nullopt, 0.0, f::add);                                             \
        return m.binop<dw::T>(NAME, n, h, FN);                                                                          \
    });
    VP_BINOPS(X)
#undef X
    // ---- n-ary
    auto nary = [&](auto tag, const char* name, double (*fn)(double, double)) {
        using T = typename decltype(tag)::type;
        std::string nm = name;
        one(nm + "1", [name, fn](Model& m, int h) { return m.nary<T>(name, {h}, fn); });
        one(nm + "2", [name, fn](Model& m, int h) { return m.nary<T>(name, {h, h}, fn); });
        one(nm + "3", [name, fn](Model& m, int h) {
            if (m.N(h)->dynamic() || m.N(h)->ndim() > 4) return -1;
            Shape s = static_shape(m, h);
            int n = m.unary<dw::NegativeNode>("neg", h, f::neg);
            int c = m.constant(s, ramp(prod(s), 2));
            return m.nary<T>(name, {h, c, n}, fn);
        });
        one(nm + "3+", [name, fn](Model& m, int h) {
            if (m.N(h)->dynamic()) return -1;
            int n = m.unary<dw::SquareNode>("square", h, f::square);
            return m.nary<T>(name, {n, h, n}, fn, true);
        });
    };
    nary(std::type_identity<dw::NaryAddNode>(), "nadd", f::add);
    nary(std::type_identity<dw::NaryMaximumNode>(), "nmax", f::max);
    nary(std::type_identity<dw::NaryMinimumNode>(), "nmin", f::min);
    nary(std::type_identity<dw::NaryMultiplyNode>(), "nmul", f::mul);
    // ---- flow
    one("where_elem", [](Model& m, int h) {
        if (m.N(h)->dynamic()) return -1;
        int c = m.binop<dw::LessEqualNode>("le", h, m.constant(0), f::le);
        int n = m.unary<dw::NegativeNode>("neg", h, f::neg);
        return m.where(c, h, n);
    });
    one("where_any", [](Model& m, int h) {
        int s = m.reduce<dw::SumNode>("sum", h, std::nullopt, 0.0, f::add);
        int c = m.binop<dw::LessEqualNode>("le", s, m.constant(1), f::le);
        int n = m.unary<dw::NegativeNode>("neg", h, f::neg);
        return m.where(c, h, n);
    });
    one("where_cond", [](Model& m, int h) {
        if (m.N(h)->dynamic() || m.N(h)->ndim() > 4) return -1;
        Shape s = static_shape(m, h);
        int c1 = m.constant(s, ramp(prod(s), 5)), c2 = m.constant(s, ramp(prod(s), -5));
        return m.where(h, c1, c2);
    });
    one("where_scalar_wide", [](Model& m, int h) {
        if (m.N(h)->size() != 1) return -1;
        return m.where(h, m.constant({3}, {1, 2, 3}), m.constant({3}, {1, 5, -3}));
    });
    // ---- manipulation
    for (L ax = 0; ax < 3; ++ax) {
        one("concat_self" + std::to_string(ax), [ax](Model& m, int h) { return m.N(h)->dynamic() ? -1 : m.concatenate({h, h}, ax); });
        one("concat_mix" + std::to_string(ax), [ax](Model& m, int h) {
            if (m.N(h)->dynamic() || m.N(h)->ndim() <= ax || m.N(h)->ndim() > 4) return -1;
            Shape s = static_shape(m, h);
            s[ax] = 1;
            int c = m.constant(s, ramp(prod(s), 2));
            int n = m.unary<dw::NegativeNode>("neg", h, f::neg);
            return m.concatenate({c, n, h}, ax);
        });
    }
    one("reshape_flat", [](Model& m, int h) { return m.N(h)->dynamic() ? -1 : m.reshape_(h, {m.N(h)->size()}); });
    one("reshape_1n", [](Model& m, int h) { return m.N(h)->dynamic() ? -1 : m.reshape_(h, {1, m.N(h)->size()}); });
    one("reshape_2", [](Model& m, int h) { return m.N(h)->dynamic() || m.N(h)->size() % 2 || !m.N(h)->size() ? -1 : m.reshape_(h, {2, m.N(h)->size() / 2}); });
    one("size", [](Model& m, int h) { return m.size(h); });
    // ---- basic indexing
    using O = std::optional<L>;
    O no;
    std::vector<SliceSpec> sl{{no, no, no}, {1, no, no}, {no, 2, no}, {no, -1, no}, {-2, no, no}, {no, no, 2}, {1, no, 2}, {no, no, -1}, {2, 0, -1}, {1, 1, no}, {5, no, no}, {-5, 2, no}, {1, 3, no}, {-3, -1, no}, {no, no, -2}, {0, 4, 3}};
    for (auto& s : sl) one("b" + str(s), [s](Model& m, int h) { return m.basic(h, {s}); });
    for (L i : {0, 1, -1}) one("b" + std::to_string(i), [i](Model& m, int h) { return m.N(h)->ndim() == 1 && (m.N(h)->dynamic() || std::labs(i) + (i >= 0) > m.N(h)->size()) ? -1 : m.basic(h, {i}); });
    SliceSpec all{}, from1{1, no, no}, step2{no, no, 2}, rev{no, no, -1}, to1{no, 1, no}, tom1{no, -1, no}, fromm1{-1, no, no};
    std::vector<std::vector<BasicIdx>> b2{{0L, all}, {all, 0L}, {all, -1L}, {-1L, from1}, {from1, all}, {all, from1}, {step2, all}, {all, step2}, {all, rev}, {rev, rev}, {rev, all}, {0L, 0L}, {-1L, 0L}, {from1, 1L}, {to1, all}, {tom1, all}, {fromm1, all}, {step2, step2}, {from1, from1}, {all, all}, {0L, rev}, {step2, -1L}};
    for (auto& b : b2) one("b2" + str(b), [b](Model& m, int h) { return m.basic(h, b); });
    std::vector<std::vector<BasicIdx>> b3{{all, 0L, all}, {all, all, 1L}, {0L, all, all}, {all, 0L, 0L}, {from1, all, 0L}, {all, rev, all}, {0L, 1L, 0L}, {all, all, step2}, {step2, all, rev}, {from1, from1, from1}, {-1L, all, 0L}};
    for (auto& b : b3) one("b3" + str(b), [b](Model& m, int h) { return m.basic(h, b); });
    // ---- advanced indexing: h as the array, constant indices
    one("adv_c1", [](Model& m, int h) { return m.N(h)->size() >= 2 && m.N(h)->ndim() == 1 ? m.advanced(h, {m.constant({4}, {0, 1, 1, 0})}) : -1; });
    one("adv_c2", [](Model& m, int h) { return m.N(h)->size() >= 2 && m.N(h)->ndim() == 1 ? m.advanced(h, {m.constant({2, 2}, {1, 0, 1, 1})}) : -1; });
    one("adv_c0", [](Model& m, int h) { return m.N(h)->size() >= 2 && m.N(h)->ndim() == 1 ? m.advanced(h, {m.constant({}, {1})}) : -1; });
    auto dims_ge2 = [](Model& m, int h, L nd) {
        if (m.N(h)->ndim() != nd) return false;
        for (L d : static_shape(m, h))
            if (d >= 0 && d < 2) return false;
        return true;
    };
    for (int pat = 1; pat < 4; ++pat)
        one("adv2_p" + std::to_string(pat), [pat, dims_ge2](Model& m, int h) {
            if (!dims_ge2(m, h, 2)) return -1;
            if (m.N(h)->dynamic() && (pat & 1)) return -1;
            int a = m.constant({3}, {1, 0, 1}), c = m.constant({3}, {0, 0, 1});
            return m.advanced(h, {pat & 1 ? a : -1, pat & 2 ? c : -1});
        });
    for (int pat = 1; pat < 8; ++pat)
        one("adv3_p" + std::to_string(pat), [pat, dims_ge2](Model& m, int h) {
            if (!dims_ge2(m, h, 3)) return -1;
            if (m.N(h)->dynamic() && (pat & 1)) return -1;
            int a = m.constant({3}, {1, 0, 1}), c = m.constant({3}, {0, 0, 1});
            return m.advanced(h, {pat & 1 ? a : -1, pat & 2 ? c : -1, pat & 4 ? a : -1});
        });
    // ---- advanced indexing: h as the index into constant tables
    auto as_index = [](Model& m, int h) {
        auto* n = m.N(h);
        return n->integral() && n->min() >= 0 && n->max() < 8 && n->max() >= 0;
    };
    auto table = [](Model& m, int h, L nd, L other) {
        Shape s;
        (void)h;
        for (L i = 0; i < nd; ++i) s.push_back(other);
        std::vector<double> v;
        L n = prod(s);
        for (L i = 0; i < n; ++i) v.push_back(10 * i + ((i * 5) % 7));
        return m.constant(s, v);
    };
    one("tab1", [=](Model& m, int h) { return as_index(m, h) ? m.advanced(table(m, h, 1, (L)m.N(h)->max() + 1), {h}) : -1; });
    for (int pat = 1; pat < 4; ++pat)
        one("tab2_p" + std::to_string(pat), [=](Model& m, int h) {
            if (!as_index(m, h)) return -1;
            return m.advanced(table(m, h, 2, (L)m.N(h)->max() + 1), {pat & 1 ? h : -1, pat & 2 ? h : -1});
        });
    for (int pat : {1, 2, 4, 3, 5, 6, 7})
        one("tab3_p" + std::to_string(pat), [=](Model& m, int h) {
            if (!as_index(m, h) || m.N(h)->max() > 4) return -1;
            return m.advanced(table(m, h, 3, (L)m.N(h)->max() + 1), {pat & 1 ? h : -1, pat & 2 ? h : -1, pat & 4 ? h : -1});
        });
    one("tab2_mixed", [=](Model& m, int h) {  // h and a constant index together
        if (!as_index(m, h) || m.N(h)->dynamic() || m.N(h)->ndim() > 4) return -1;
        Shape s = static_shape(m, h);
        std::vector<double> v;
        for (L i = 0; i < prod(s); ++i) v.push_back(i % 2);
        int c = m.constant(s, v);
        L K = std::max<L>(2, (L)m.N(h)->max() + 1);
        return m.advanced(table(m, h, 2, K), {c, h});
    });
    one("self_index", [=](Model& m, int h) {  // h indexes itself
        if (!as_index(m, h) || m.N(h)->dynamic() || m.N(h)->ndim() != 1 || m.N(h)->max() >= m.N(h)->size()) return -1;
        return m.advanced(h, {h});
    });
    one("varying_table", [=](Model& m, int h) {  // both the table and the index derive from h
        if (!as_index(m, h) || m.N(h)->dynamic() || m.N(h)->ndim() != 1 || m.N(h)->max() >= m.N(h)->size()) return -1;
        int n = m.unary<dw::SquareNode>("square", h, f::square);
        return m.advanced(n, {h});
    });
    // ---- permutation, quadratic model
    for (L nd = 1; nd <= 3; ++nd)
        one("perm" + std::to_string(nd), [=](Model& m, int h) {
            auto* n = m.N(h);
            if (n->dynamic() || n->ndim() != 1 || !n->integral() || n->min() < 0 || n->max() >= n->size() || n->size() < 1) return -1;
            return m.permutation(table(m, h, nd, n->size()), h);
        });
    one("qm", [](Model& m, int h) {
        auto* n = m.N(h);
        if (n->dynamic() || n->ndim() != 1 || n->size() < 1) return -1;
        L N = n->size();
        std::vector<double> lin = ramp(N, 1, 0.5);
        std::vector<std::array<double, 3>> q;
        for (L i = 0; i < N; ++i)
            for (L j = 0; j <= i; ++j)
                if ((i + 2 * j) % 3 != 1) q.push_back({(double)i, (double)j, 1.0 + i - 2.0 * j});
        return m.qm(h, lin, q);
    });
    return ops;
}

}  // namespace vp
