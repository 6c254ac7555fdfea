// Reference n-dimensional arrays: small, boring, row-major; the oracle's notion of "what NumPy does".
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <numeric>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

namespace vp {

using L = long;
using Shape = std::vector<L>;

struct ND {
    Shape shape;
    std::vector<double> v;
    L size() const { return (L)v.size(); }
};

inline L prod(const Shape& s) {
    L p = 1;
    for (L x : s) p *= x;
    return p;
}

inline std::string str(const Shape& s) {
    std::ostringstream o;
    o << "(";
    for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << s[i];
    o << ")";
    return o.str();
}
inline std::string str(const std::vector<double>& s) {
    std::ostringstream o;
    o.precision(12);
    o << "[";
    for (size_t i = 0; i < s.size(); ++i) o << (i ? " " : "") << s[i];
    o << "]";
    return o.str();
}
inline std::string str(const ND& a) { return "shape" + str(a.shape) + str(a.v); }

inline bool close(double a, double b) {
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    double m = std::max({1.0, std::fabs(a), std::fabs(b)});
    return std::fabs(a - b) <= 1e-9 * m;
}
inline bool same(const ND& a, const ND& b) {
    if (a.shape != b.shape || a.v.size() != b.v.size()) return false;
    for (size_t i = 0; i < a.v.size(); ++i)
        if (!close(a.v[i], b.v[i])) return false;
    return true;
}

inline ND scalar(double x) { return ND{{}, {x}}; }

// iterate over all multi-indices of a shape
template <class F>
inline void each_index(const Shape& shape, F f) {
    L n = prod(shape);
    Shape idx(shape.size(), 0);
    for (L k = 0; k < n; ++k) {
        f(idx, k);
        for (L d = (L)shape.size() - 1; d >= 0; --d) {
            if (++idx[d] < shape[d]) break;
            idx[d] = 0;
        }
    }
}
inline L ravel(const Shape& shape, const Shape& idx) {
    L r = 0;
    for (size_t d = 0; d < shape.size(); ++d) r = r * shape[d] + idx[d];
    return r;
}

// Python's slice.indices
struct SliceSpec {
    std::optional<L> start, stop, step;
};
inline std::vector<L> slice_indices(const SliceSpec& s, L n) {
    L step = s.step.value_or(1);
    L lo = step > 0 ? 0 : -1, hi = step > 0 ? n : n - 1;
    auto fix = [&](std::optional<L> x, L dflt) {
        if (!x) return dflt;
        L y = *x;
        if (y < 0) y += n;
        if (y < lo) y = lo;
        if (y > hi) y = hi;
        return y;
    };
    L start = fix(s.start, step > 0 ? 0 : n - 1);
    L stop = fix(s.stop, step > 0 ? n : -1);
    std::vector<L> out;
    if (step > 0)
        for (L i = start; i < stop; i += step) out.push_back(i);
    else
        for (L i = start; i > stop; i += step) out.push_back(i);
    return out;
}

using BasicIdx = std::variant<SliceSpec, L>;
inline std::string str(const SliceSpec& s) {
    std::ostringstream o;
    if (s.start) o << *s.start;
    o << ":";
    if (s.stop) o << *s.stop;
    if (s.step) o << ":" << *s.step;
    return o.str();
}
inline std::string str(const std::vector<BasicIdx>& ix) {
    std::string r = "[";
    for (size_t i = 0; i < ix.size(); ++i) {
        if (i) r += ",";
        if (auto s = std::get_if<SliceSpec>(&ix[i]))
            r += str(*s);
        else
            r += std::to_string(std::get<L>(ix[i]));
    }
    return r + "]";
}
inline ND basic_index(const ND& a, const std::vector<BasicIdx>& ix) {
    std::vector<std::vector<L>> sel;
    Shape out;
    for (size_t d = 0; d < a.shape.size(); ++d) {
        if (d < ix.size()) {
            if (auto s = std::get_if<SliceSpec>(&ix[d])) {
                sel.push_back(slice_indices(*s, a.shape[d]));
                out.push_back(sel.back().size());
            } else {
                L i = std::get<L>(ix[d]);
                if (i < 0) i += a.shape[d];
                if (i < 0 || i >= a.shape[d]) throw std::out_of_range("ref basic index");
                sel.push_back({i});
            }
        } else {
            sel.push_back(slice_indices({}, a.shape[d]));
            out.push_back(a.shape[d]);
        }
    }
    ND r;
    r.shape = out;
    Shape full;
    for (auto& s : sel) full.push_back(s.size());
    each_index(full, [&](const Shape& k, L) {
        Shape src(k.size());
        for (size_t d = 0; d < k.size(); ++d) src[d] = sel[d][k[d]];
        r.v.push_back(a.v[ravel(a.shape, src)]);
    });
    return r;
}

// combined advanced indexing; nullopt = ':' (trailing axes are ':' too). All index arrays same shape.
inline ND advanced_index(const ND& a, const std::vector<std::optional<ND>>& ix_) {
    std::vector<std::optional<ND>> ix = ix_;
    while (ix.size() < a.shape.size()) ix.push_back(std::nullopt);
    Shape ishape;
    bool any = false;
    L first = -1, last = -1;
    for (size_t d = 0; d < ix.size(); ++d)
        if (ix[d]) {
            if (!any || prod(ix[d]->shape) > prod(ishape) || ix[d]->shape.size() > ishape.size())
                ishape = ix[d]->shape;
            any = true;
            if (first < 0) first = d;
            last = d;
        }
    bool split = false;
    for (L d = first; d <= last; ++d)
        if (!ix[d]) split = true;
    // result axes
    Shape out;
    L pos = split ? 0 : first;  // where the index axes go (counted in ':' axes before)
    std::vector<L> slice_axes;
    for (size_t d = 0; d < ix.size(); ++d)
        if (!ix[d]) slice_axes.push_back(d);
    L nbefore = 0;
    if (!split)
        for (L d : slice_axes)
            if (d < first) ++nbefore;
    for (L i = 0; i < nbefore; ++i) out.push_back(a.shape[slice_axes[i]]);
    for (L s : ishape) out.push_back(s);
    for (size_t i = nbefore; i < slice_axes.size(); ++i) out.push_back(a.shape[slice_axes[i]]);
    (void)pos;
    ND r;
    r.shape = out;
    each_index(out, [&](const Shape& k, L) {
        Shape src(a.shape.size());
        Shape ik(k.begin() + nbefore, k.begin() + nbefore + ishape.size());
        for (size_t i = 0; i < slice_axes.size(); ++i)
            src[slice_axes[i]] = (L)i < nbefore ? k[i] : k[i + ishape.size()];
        for (size_t d = 0; d < ix.size(); ++d)
            if (ix[d]) {
                double x = ix[d]->size() == 1 ? ix[d]->v[0] : ix[d]->v[ravel(ishape, ik)];
                L i = (L)x;
                if (i < 0) i += a.shape[d];
                if (i < 0 || i >= a.shape[d]) throw std::out_of_range("ref adv index");
                src[d] = i;
            }
        r.v.push_back(a.v[ravel(a.shape, src)]);
    });
    return r;
}

inline ND reshape(const ND& a, Shape s) {
    L known = 1, unk = -1;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] < 0)
            unk = i;
        else
            known *= s[i];
    if (unk >= 0) s[unk] = known ? a.size() / known : 0;
    return ND{s, a.v};
}

inline ND concat(const std::vector<ND>& as, L axis) {
    ND r;
    r.shape = as[0].shape;
    r.shape[axis] = 0;
    for (auto& a : as) r.shape[axis] += a.shape[axis];
    r.v.resize(prod(r.shape));
    L off = 0;
    for (auto& a : as) {
        each_index(a.shape, [&](const Shape& k, L n) {
            Shape d = k;
            d[axis] += off;
            r.v[ravel(r.shape, d)] = a.v[n];
        });
        off += a.shape[axis];
    }
    return r;
}

template <class F>
inline ND reduce_axis(const ND& a, L axis, double init, F f) {
    ND r;
    for (size_t d = 0; d < a.shape.size(); ++d)
        if ((L)d != axis) r.shape.push_back(a.shape[d]);
    r.v.assign(prod(r.shape), init);
    each_index(a.shape, [&](const Shape& k, L n) {
        Shape o;
        for (size_t d = 0; d < k.size(); ++d)
            if ((L)d != axis) o.push_back(k[d]);
        double& x = r.v[ravel(r.shape, o)];
        x = f(x, a.v[n]);
    });
    return r;
}

}  // namespace vp
