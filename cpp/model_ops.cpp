#include "model.hpp"

namespace vp {

int Model::unary_(const char* name, int a, double (*f)(double), Make1 make) {
    if (refuse(name, {a})) return -1;
    auto* p = N(a);
    std::string d = std::string(name) + "(" + D(a) + ")";
    bool well = std::string(name) != "sqrt" || p->min() >= 0;
    ArrayNode* n = attempt(well, false, d, [&]() -> ArrayNode* { return make(g, p); });
    if (!n) return -1;
    return mark(name, add(n, d, [a, f](const Vals& v) {
        ND r = v[a];
        for (double& x : r.v) x = f(x);
        return r;
    }, {a}));
}
int Model::binop_(const char* name, int a, int b, double (*f)(double, double), Make2 make) {
    if (refuse(name, {a, b})) return -1;
    auto *p = N(a), *q = N(b);
    std::string d = std::string(name) + "(" + D(a) + "," + D(b) + ")";
    bool well = (same_shape(p, q) || p->ndim() == 0 || q->ndim() == 0) &&
                (std::string(name) != "div" || q->min() > 0 || q->max() < 0);
    ArrayNode* n = attempt(well, false, d, [&]() -> ArrayNode* { return make(g, p, q); });
    if (!n) return -1;
    bool sa = p->size() == 1, sb = q->size() == 1;
    return mark(name, add(n, d, [a, b, f, sa, sb](const Vals& v) {
        const ND &x = v[a], &y = v[b];
        ND r;
        if (sa && sb) r.shape = x.shape.size() >= y.shape.size() ? x.shape : y.shape;
        else if (sa) {
            r.shape = y.shape;
            while (r.shape.size() < x.shape.size()) r.shape.insert(r.shape.begin(), 1);
        } else {
            r.shape = x.shape;
            while (r.shape.size() < y.shape.size()) r.shape.insert(r.shape.begin(), 1);
        }
        L n = sa ? y.size() : x.size();
        for (L i = 0; i < n; ++i) r.v.push_back(f(x.v[sa ? 0 : i], y.v[sb ? 0 : i]));
        return r;
    }, {a, b}));
}
int Model::nary_(const char* name, std::vector<int> as, double (*f)(double, double), bool incremental, MakeN make) {
    if (refuse(name, as)) return -1;
    std::vector<ArrayNode*> ps;
    std::string d = std::string(name) + (incremental ? "+" : "") + "(";
    for (int a : as) {
        ps.push_back(N(a));
        d += D(a) + ";";
    }
    bool well = true;
    for (auto* p : ps) well = well && same_shape(p, ps[0]);
    ArrayNode* n = attempt(well, false, d + ")", [&]() -> ArrayNode* {
        if (incremental && !well) throw std::invalid_argument("x");
        return make(g, ps, incremental);
    });
    if (!n) return -1;
    return mark(name, add(n, d + ")", [as, f](const Vals& v) {
        ND r = v[as[0]];
        for (size_t k = 1; k < as.size(); ++k)
            for (L i = 0; i < r.size(); ++i) r.v[i] = f(r.v[i], v[as[k]].v[i]);
        return r;
    }, as));
}
int Model::reduce_(const char* name, int a, std::optional<double> init, std::optional<double> identity, double (*f)(double, double), MakeR make) {
    if (refuse(name, {a})) return -1;
    auto* p = N(a);
    std::string d = std::string(name) + "(" + D(a) + (init ? ",init=" + str(std::vector<double>{*init}) : "") + ")";
    bool well = init || identity || (!p->dynamic() && p->size() > 0);
    ArrayNode* n = attempt(well, false, d, [&]() -> ArrayNode* {
        return make(g, p, init);
    });
    if (!n) return -1;
    return mark(name, add(n, d, [a, init, identity, f](const Vals& v) {
        std::optional<double> acc = init ? init : identity;
        for (double x : v[a].v) acc = acc ? f(*acc, x) : x;
        return scalar(acc ? *acc : NAN);
    }, {a}));
}

int Model::constant(Shape shape, std::vector<double> v) {
    ArrayNode* n;
    if (shape.size() == 0) n = g.emplace_node<dw::ConstantNode>(v[0]);
    else if (shape.size() == 1) n = g.emplace_node<dw::ConstantNode>(v, std::initializer_list<ssize_t>{shape[0]});
    else if (shape.size() == 2) n = g.emplace_node<dw::ConstantNode>(v, std::initializer_list<ssize_t>{shape[0], shape[1]});
    else if (shape.size() == 3) n = g.emplace_node<dw::ConstantNode>(v, std::initializer_list<ssize_t>{shape[0], shape[1], shape[2]});
    else n = g.emplace_node<dw::ConstantNode>(v, std::initializer_list<ssize_t>{shape[0], shape[1], shape[2], shape[3]});
    ND a{shape, v};
    return add(n, "const" + str(a), [a](const Vals&) { return a; });
}

int Model::partial_sum(int a, L axis, std::optional<double> init) {
    if (a < 0) return -1;
    auto* p = N(a);
    if (axis >= p->ndim()) return -1;
    std::string d = "partialsum(" + D(a) + ",axis=" + std::to_string(axis) + (init ? ",init" : "") + ")";
    ArrayNode* n = attempt(!p->dynamic() && p->size() > 0, false, d, [&]() -> ArrayNode* {
        if (init) return g.emplace_node<dw::PartialSumNode>(p, (ssize_t)axis, *init);
        return g.emplace_node<dw::PartialSumNode>(p, (ssize_t)axis);
    });
    if (!n) return -1;
    return add(n, d, [a, axis, init](const Vals& v) {
        return reduce_axis(v[a], axis, init.value_or(0), [](double x, double y) { return x + y; });
    }, {a});
}

int Model::where(int c, int x, int y) {
    if (c < 0 || x < 0 || y < 0 || !recs[c].exact) return -1;
    auto *pc = N(c), *px = N(x), *py = N(y);
    std::string d = "where(" + D(c) + ";" + D(x) + ";" + D(y) + ")";
    bool well = (same_shape(px, py) && (pc->ndim() == 0 || same_shape(pc, px))) || (pc->ndim() == 0 && x == y);
    ArrayNode* n = attempt(well, false, d, [&]() -> ArrayNode* { return g.emplace_node<dw::WhereNode>(pc, px, py); });
    if (!n) return -1;
    bool sc = pc->size() == 1;
    return add(n, d, [=](const Vals& v) {
        if (sc) return v[c].v[0] ? v[x] : v[y];
        ND r = v[x];
        for (L i = 0; i < r.size(); ++i) r.v[i] = v[c].v[i] ? v[x].v[i] : v[y].v[i];
        return r;
    }, {c, x, y});
}

int Model::concatenate(std::vector<int> as, L axis) {
    if (refuse("concat", as)) return -1;
    std::vector<ArrayNode*> ps;
    std::string d = "concat(";
    for (int a : as) {
        ps.push_back(N(a));
        d += D(a) + ";";
    }
    for (auto* p : ps)
        if (p->ndim() <= axis) return -1;
    d += "axis=" + std::to_string(axis) + ")";
    bool well = true;
    for (auto* p : ps) {
        well = well && !p->dynamic() && p->ndim() == ps[0]->ndim();
        for (L i = 0; well && i < p->ndim(); ++i) well = i == axis || p->shape()[i] == ps[0]->shape()[i];
    }
    ArrayNode* n = attempt(well, false, d, [&]() -> ArrayNode* { return g.emplace_node<dw::ConcatenateNode>(std::span<ArrayNode*>(ps), (ssize_t)axis); });
    if (!n) return -1;
    return add(n, d, [as, axis](const Vals& v) {
        std::vector<ND> xs;
        for (int a : as) xs.push_back(v[a]);
        return concat(xs, axis);
    }, as);
}

int Model::reshape_(int a, Shape s) {
    if (a < 0) return -1;
    auto* p = N(a);
    std::vector<ssize_t> sh(s.begin(), s.end());
    std::string d = "reshape(" + D(a) + "," + str(s) + ")";
    L total = 1;
    for (L x : s) total *= x;
    bool well = !p->dynamic() && p->contiguous() && total == p->size();
    for (L x : s) well = well && x >= 0;
    ArrayNode* n = attempt(well, false, d, [&]() -> ArrayNode* { return g.emplace_node<dw::ReshapeNode>(p, std::span<const ssize_t>(sh)); });
    if (!n) return -1;
    return add(n, d, [a, s](const Vals& v) { return reshape(v[a], s); }, {a});
}

int Model::size(int a) {
    if (a < 0) return -1;
    auto* p = N(a);
    ArrayNode* n = attempt(true, false, "size(" + D(a) + ")", [&]() -> ArrayNode* { return g.emplace_node<dw::SizeNode>(p); });
    if (!n) return -1;
    return add(n, "size(" + D(a) + ")", [a](const Vals& v) { return scalar(v[a].size()); }, {a});
}

int Model::basic(int a, std::vector<BasicIdx> ix) {
    if (a < 0) return -1;
    auto* p = N(a);
    if ((L)ix.size() != p->ndim()) return -1;
    std::vector<dw::BasicIndexingNode::slice_or_int> ii;
    bool well = p->contiguous();
    for (size_t k = 0; k < ix.size(); ++k) {
        auto& i = ix[k];
        if (auto s = std::get_if<SliceSpec>(&i)) {
            well = well && s->step.value_or(1) > 0;
            auto c = [](std::optional<L> x) -> std::optional<ssize_t> { return x ? std::optional<ssize_t>(*x) : std::nullopt; };
            ii.push_back(dw::Slice(c(s->start), c(s->stop), c(s->step)));
        } else {
            L v = std::get<L>(i), len = p->shape()[k];
            well = well && len >= 0 && v >= -len && v < len;
            ii.push_back((ssize_t)v);
        }
    }
    ArrayNode* n = attempt(well, true, D(a) + str(ix), [&]() -> ArrayNode* { return g.emplace_node<dw::BasicIndexingNode>(p, ii); });
    if (!n) return -1;
    return add(n, D(a) + str(ix), [a, ix](const Vals& v) { return basic_index(v[a], ix); }, {a}, true);
}

int Model::advanced(int a, std::vector<int> ix) {  // -1 = ':'
    if (a < 0) return -1;
    auto* p = N(a);
    if ((L)ix.size() != p->ndim()) return -1;
    std::vector<dw::AdvancedIndexingNode::array_or_slice> ii;
    std::string d = D(a) + "[[";
    std::vector<int> preds = {a};
    // static arrays of at most one axis, all of the same shape and within range; a dynamic array may be
    // indexed too, but under conditions that are not looked at here
    bool well = !p->dynamic();
    const ArrayNode* q0 = nullptr;
    for (size_t k = 0; k < ix.size(); ++k) {
        int i = ix[k];
        if (i >= 0) {
            const ArrayNode* q = N(i);
            if (!q0) q0 = q;
            well = well && !q->dynamic() && q->ndim() <= 1 && same_shape(q, q0) && q->integral() && q->min() >= 0 && q->max() < p->shape()[k];
        }
        if (i < 0) {
            ii.push_back(dw::Slice());
            d += ":,";
        } else {
            ii.push_back(N(i));
            d += D(i) + ",";
            preds.push_back(i);
        }
    }
    ArrayNode* n = attempt(well && q0, true, d + "]]", [&]() -> ArrayNode* { return g.emplace_node<dw::AdvancedIndexingNode>(p, ii); });
    if (!n) return -1;
    return add(n, d + "]]", [a, ix](const Vals& v) {
        std::vector<std::optional<ND>> k;
        for (int i : ix) k.push_back(i < 0 ? std::optional<ND>() : std::optional<ND>(v[i]));
        return advanced_index(v[a], k);
    }, preds, true);
}

int Model::permutation(int a, int order) {
    if (a < 0 || order < 0) return -1;
    auto *p = N(a), *q = N(order);
    std::string d = "permutation(" + D(a) + "," + D(order) + ")";
    bool well = dynamic_cast<dw::ConstantNode*>(p) && p->ndim() >= 1 && q->ndim() == 1 && !q->dynamic() && q->integral() && q->min() >= 0;
    for (L i = 0; well && i < p->ndim(); ++i) well = p->shape()[i] == q->size() && q->max() < p->shape()[i];
    ArrayNode* n = attempt(well, true, d, [&]() -> ArrayNode* { return g.emplace_node<dw::PermutationNode>(p, q); });
    if (!n) return -1;
    return add(n, d, [a, order](const Vals& v) {
        ND r = v[a];
        each_index(r.shape, [&](const Shape& k, L i) {
            Shape s = k;
            for (L& x : s) x = (L)v[order].v[x];
            r.v[i] = v[a].v[ravel(r.shape, s)];
        });
        return r;
    }, {a, order}, true);
}

int Model::qm(int a, std::vector<double> h, std::vector<std::array<double, 3>> q) {
    if (a < 0) return -1;
    auto* p = N(a);
    if (p->ndim() != 1 || p->dynamic() || p->size() != (L)h.size()) return -1;
    ArrayNode* n = attempt(true, false, "qm(" + D(a) + ")", [&]() -> ArrayNode* {
        dw::QuadraticModel m((int)h.size());
        for (size_t i = 0; i < h.size(); ++i) m.add_linear((int)i, h[i]);
        for (auto& t : q) m.add_quadratic((int)t[0], (int)t[1], t[2]);
        return g.emplace_node<dw::QuadraticModelNode>(p, std::move(m));
    });
    if (!n) return -1;
    return add(n, "qm(" + D(a) + ")", [a, h, q](const Vals& v) {
        double e = 0;
        for (size_t i = 0; i < h.size(); ++i) e += h[i] * v[a].v[i];
        for (auto& t : q) e += t[2] * v[a].v[(L)t[0]] * v[a].v[(L)t[1]];
        return scalar(e);
    }, {a});
}

}  // namespace vp
