// C19: the small exact primitives everything else is built from, over every argument of a bounded space.
#include <cmath>
#include <limits>
#include <numeric>
#include <sstream>

#include "customs.hpp"
#include "dwave-optimization/array.hpp"
#include "dwave-optimization/utils.hpp"

namespace vp {
namespace {

namespace dw = dwave::optimization;
using dw::Update;
typedef std::vector<L> LV;

std::string lstr(const LV& v) {
    std::string r = "(";
    for (auto x : v) r += std::to_string(x) + ",";
    return r + ")";
}

std::string dstr(const std::vector<Update>& d) {
    std::ostringstream o;
    for (auto& u : d) {
        o << u.index << ":";
        if (u.placed()) o << "+"; else o << u.old;
        o << ">";
        if (u.removed()) o << "-"; else o << u.value;
        o << " ";
    }
    return o.str();
}

// ---- lists of changes -------------------------------------------------------------------------------------------
// Every consistent list of changes of up to `depth` steps from every array of up to `most` elements. In a list some
// changes may leave a value as it is.

struct Dedup {
    Ctx& c;
    std::vector<double> first;

    void check(const std::vector<Update>& diff, const std::vector<double>& now) {
        ++c.st.states;
        c.hist("dedup|" + dstr(diff));
        std::vector<Update> out = diff;
        dw::deduplicate_diff(out);
        ++c.st.transitions;
        auto bad = [&](const std::string& w) { c.fail(C19, "dedup-" + w, "deduplicate_diff", "from " + str(first) + " by " + dstr(diff) + "to " + str(now) + ": left " + dstr(out)); };
        for (size_t i = 1; i < out.size(); ++i)
            if (out[i].index <= out[i - 1].index) return bad("order");
        std::vector<char> touched(std::max(first.size(), now.size()), 0);
        for (auto& u : out) {
            if (u.index < 0 || (size_t)u.index >= touched.size()) return bad("index");
            touched[u.index] = 1;
            bool was = (size_t)u.index < first.size(), is = (size_t)u.index < now.size();
            if (was == u.placed() || (was && u.old != first[u.index])) return bad("old");
            if (is == u.removed() || (is && u.value != now[u.index])) return bad("value");
        }
        for (size_t i = 0; i < touched.size(); ++i) {
            bool was = i < first.size(), is = i < now.size();
            if (touched[i] || (was == is && (!was || first[i] == now[i]))) continue;
            return bad("lost");
        }
        // and what has been deduplicated once stays as it is
        std::vector<Update> again = out;
        dw::deduplicate_diff(again);
        bool same = again.size() <= out.size();
        for (auto& u : again) {
            bool found = false;
            for (auto& v : out) found |= Update::equals(u, v);
            same &= found;
        }
        for (auto& v : out)
            if (!v.identity()) {
                bool found = false;
                for (auto& u : again) found |= Update::equals(u, v);
                same &= found;
            }
        if (!same) bad("twice");
    }

    void grow(std::vector<Update>& diff, std::vector<double>& now, int depth, size_t most) {
        check(diff, now);
        if (!depth || c.stop()) return;
        for (size_t i = 0; i < now.size(); ++i)
            for (double v : {0.0, 1.0, 2.0}) {
                if (v == 2 && now[i] != 2 && i) continue;  // a third value at the first place, or unchanged
                double old = now[i];
                diff.emplace_back(i, old, v);
                now[i] = v;
                grow(diff, now, depth - 1, most);
                now[i] = old;
                diff.pop_back();
            }
        if (now.size() < most)
            for (double v : {0.0, 1.0}) {
                diff.push_back(Update::placement(now.size(), v));
                now.push_back(v);
                grow(diff, now, depth - 1, most);
                now.pop_back();
                diff.pop_back();
            }
        if (!now.empty()) {
            double old = now.back();
            now.pop_back();
            diff.push_back(Update::removal(now.size(), old));
            grow(diff, now, depth - 1, most);
            diff.pop_back();
            now.push_back(old);
        }
    }
};

void dedup(Ctx& c, size_t n) {
    for (size_t code = 0; code < (size_t)1 << n; ++code) {
        std::vector<double> first;
        for (size_t i = 0; i < n; ++i) first.push_back(code >> i & 1);
        Dedup d{c, first};
        std::vector<Update> diff;
        std::vector<double> now = first;
        d.grow(diff, now, (c.tier ? 6 : 5) + (n < 2), n < 2 ? 4 : 3);
        if (c.stop()) return;
    }
}

// Longer lists: for every pair of contents and every order in which to visit the places, each place changed twice.
void dedup_long(Ctx& c) {
    for (size_t n : {1, 2, 7, 16, 17, 33, 64})
        for (size_t shrink = 0; shrink <= std::min<size_t>(n, 3); ++shrink)
            for (size_t stride = 1; stride < n + 1; ++stride) {
                if (std::gcd(stride, n) != 1) continue;
                for (int pat = 0; pat < 8; ++pat) {
                    std::vector<double> first(n), now;
                    for (size_t i = 0; i < n; ++i) first[i] = pat & 1 ? i % 3 : i;
                    now = first;
                    std::vector<Update> diff;
                    for (int pass = 0; pass < 2; ++pass)
                        for (size_t k = 0; k < n; ++k) {
                            size_t i = k * stride % n;
                            double v = pass && (pat & 2) ? first[i] : pass + 1.5 * (i % (pat & 4 ? 2 : 5));
                            diff.emplace_back(i, now[i], v);
                            now[i] = v;
                        }
                    for (size_t s = 0; s < shrink; ++s) {
                        diff.push_back(Update::removal(now.size() - 1, now.back()));
                        now.pop_back();
                    }
                    if (pat & 4) {
                        for (size_t s = 0; s < shrink + 1; ++s) {
                            diff.push_back(Update::placement(now.size(), s));
                            now.push_back(s);
                        }
                    }
                    Dedup d{c, first};
                    d.check(diff, now);
                    if (c.stop()) return;
                }
            }
}

// ---- indices ----------------------------------------------------------------------------------------------------

void each_shape(const LV& alphabet, int dims, const std::function<void(const LV&)>& f) {
    LV s;
    std::function<void(int)> go = [&](int d) {
        f(s);
        if (!d) return;
        for (L x : alphabet) {
            s.push_back(x);
            go(d - 1);
            s.pop_back();
        }
    };
    go(dims);
}

void ravels(Ctx& c) {
    each_shape(c.tier ? LV{1, 2, 3, 4, 5, 7} : LV{1, 2, 3, 4, 5}, c.tier ? 5 : 4, [&](const LV& shape) {
        if (c.stop()) return;
        std::vector<ssize_t> strides(shape.size());
        L size = 1;
        for (size_t k = shape.size(); k--;) {
            strides[k] = size * sizeof(double);
            size *= shape[k];
        }
        LV at(shape.size(), 0);
        for (L i = 0; i < size; ++i) {
            ++c.st.states;
            c.hist("ravel|" + lstr(shape) + "|" + std::to_string(i));
            auto got = dw::unravel_index(strides, i);
            if (!shape.empty() && !std::ranges::equal(got, at)) c.fail(C19, "unravel", "unravel_index", lstr(shape) + " at " + std::to_string(i) + " gives " + lstr(LV(got.begin(), got.end())));
            std::vector<ssize_t> idx(at.begin(), at.end());
            if (dw::ravel_multi_index(strides, idx) != i) c.fail(C19, "ravel", "ravel_multi_index", lstr(shape) + " at " + lstr(at) + " gives " + std::to_string(dw::ravel_multi_index(strides, idx)));
            if (at.size() == 2 && dw::ravel_multi_index(strides, {idx[0], idx[1]}) != i) c.fail(C19, "ravel-list", "ravel_multi_index", lstr(shape));
            ++c.st.transitions;
            for (size_t k = shape.size(); k--;) {
                if (++at[k] < shape[k]) break;
                at[k] = 0;
            }
        }
    });
}

void broadcasts(Ctx& c) {
    std::vector<LV> all;
    each_shape({-1, 0, 1, 2, 3}, 3, [&](const LV& s) {
        for (size_t i = 1; i < s.size(); ++i)
            if (s[i] < 0) return;
        all.push_back(s);
    });
    for (auto& a : all)
        for (auto& b : all) {
            if (c.stop()) return;
            ++c.st.states;
            ++c.st.transitions;
            c.hist("broadcast|" + lstr(a) + lstr(b));
            LV want;
            bool ok = true;
            for (size_t k = 1; k <= std::max(a.size(), b.size()); ++k) {
                L x = k <= a.size() ? a[a.size() - k] : 1, y = k <= b.size() ? b[b.size() - k] : 1;
                if (x != y && x != 1 && y != 1) ok = false;
                want.insert(want.begin(), x == 1 ? y : x);
            }
            for (size_t k = 1; k < want.size(); ++k)
                if (want[k] < 0) ok = false;
            std::vector<ssize_t> got;
            bool refused = false;
            try {
                got = dw::broadcast_shape(std::vector<ssize_t>(a.begin(), a.end()), std::vector<ssize_t>(b.begin(), b.end()));
            } catch (const std::invalid_argument&) {
                refused = true;
            }
            if (refused == ok) c.fail(C19, refused ? "broadcast-refused" : "broadcast-accepted", "broadcast_shape", lstr(a) + " with " + lstr(b));
            else if (ok && !std::ranges::equal(got, want)) c.fail(C19, "broadcast", "broadcast_shape", lstr(a) + " with " + lstr(b) + " gives " + lstr(LV(got.begin(), got.end())));
        }
}

// ---- slices -----------------------------------------------------------------------------------------------------
// As Python documents slices: k runs over start, start+step, ... while before stop, bounds adjusted to the length.

void slice_fits(Ctx& c) {
    const L NONE = 1000, BIG = std::numeric_limits<ssize_t>::max(), SMALL = std::numeric_limits<ssize_t>::lowest();
    LV ends{NONE, BIG, SMALL, BIG - 1, SMALL + 1}, steps{NONE, BIG, SMALL + 1};
    const L R = c.tier ? 14 : 9;
    for (L i = -R; i <= R; ++i) {
        ends.push_back(i);
        if (i) steps.push_back(i);
    }
    auto opt = [&](L x) { return x == NONE ? std::optional<ssize_t>() : std::optional<ssize_t>(x); };
    for (L a : ends)
        for (L b : ends)
            for (L s : steps)
                for (L n = 0; n <= (c.tier ? 12 : 8); ++n) {
                    ++c.st.states;
                    ++c.st.transitions;
                    c.hist("slice|" + lstr({a, b, s, n}));
                    typedef __int128 I;
                    I step = s == NONE ? 1 : s;
                    auto clip = [&](L x, I lo, I hi) -> I {
                        I y = x;
                        if (y < 0) y += n;
                        return std::min(std::max(y, lo), hi);
                    };
                    I lo = step < 0 ? -1 : 0, hi = step < 0 ? n - 1 : n;
                    I start = a == NONE ? (step < 0 ? hi : lo) : clip(a, lo, hi), stop = b == NONE ? (step < 0 ? lo : hi) : clip(b, lo, hi);
                    LV want;
                    for (I k = start; step > 0 ? k < stop : k > stop; k += step) want.push_back((L)k);
                    dw::Slice sl(opt(a), opt(b), opt(s));
                    dw::Slice fit = sl.fit(n), fit2 = sl.fit_at(n);
                    auto bad = [&](const std::string& w) { c.fail(C19, "slice-" + w, "Slice", "start,stop,step,length " + lstr({a, b, s, n})); };
                    if (!(fit == fit2)) bad("fit_at");
                    if (fit.size() != want.size()) { bad("size"); continue; }
                    for (size_t k = 0; k < want.size(); ++k)
                        if (fit.start + (L)k * fit.step != want[k]) { bad("element"); break; }
                    if (!(sl == dw::Slice(opt(a), opt(b), opt(s)))) bad("equal");
                    if (sl.empty() != (sl.start == 0 && sl.stop == BIG && sl.step == 1)) bad("empty");
                }
    for (L a : {0, 3})
        try {
            dw::Slice(opt(a), opt(5), opt(0));
            c.fail(C19, "slice-zero", "Slice", "a step of zero was accepted");
        } catch (const std::invalid_argument&) {}
    try {
        dw::Slice().fit_at(-1);
        c.fail(C19, "slice-negative", "Slice", "a negative length was accepted");
    } catch (const std::invalid_argument&) {}
}

// ---- numbers ----------------------------------------------------------------------------------------------------

void fractions(Ctx& c) {
    const L R = c.tier ? 48 : 24;
    auto check = [&](const std::string& what, dw::fraction f, L n, L d) {  // f should be n/d
        ++c.st.transitions;
        L g = std::gcd(n, d);
        if (d < 0) g = -g;
        if (f.numerator() != n / g || f.denominator() != d / g) {
            std::ostringstream o;
            o << f;
            c.fail(C19, "fraction", "fraction", what + " of " + std::to_string(n) + "/" + std::to_string(d) + " is " + o.str());
        }
    };
    auto refuses = [&](const std::string& what, auto f) {
        try {
            f();
            c.fail(C19, "fraction-zero", "fraction", what + " by zero was accepted");
        } catch (const std::invalid_argument&) {}
    };
    refuses("construction", [] { (void)dw::fraction(3, 0); });
    check("default", dw::fraction(), 0, 1);
    for (L n = -R; n <= R; ++n) {
        check("integer", dw::fraction(n), n, 1);
        for (L d = -R; d <= R; ++d) {
            if (!d) continue;
            ++c.st.states;
            c.hist("fraction|" + lstr({n, d}));
            dw::fraction f(n, d);
            check("pair", f, n, d);
            if ((L)(ssize_t)f != n / d) c.fail(C19, "fraction-integer", "fraction", lstr({n, d}));
            if ((double)f != (double)n / (double)d) c.fail(C19, "fraction-double", "fraction", lstr({n, d}));
            refuses("division", [&] { f / 0; });
            for (L k = -R; k <= R; ++k) {
                check("product", f * k, n * k, d);
                dw::fraction g(n, d);
                g *= k;
                check("product in place", g, n * k, d);
                if ((f == k) != (n == k * d)) c.fail(C19, "fraction-equal", "fraction", lstr({n, d, k}));
                if (!k) continue;
                check("quotient", f / k, n, d * k);
                for (L m = -3; m <= 3; ++m) {
                    dw::fraction h(n, d);
                    h *= dw::fraction(m, k);
                    check("product of fractions", h, n * m, d * k);
                    if ((f == dw::fraction(m, k)) != (n * k == m * d)) c.fail(C19, "fraction-equal", "fraction", lstr({n, d, m, k}));
                }
            }
            if (c.stop()) return;
        }
    }
}

// Every sequence of additions and subtractions from an alphabet of very unequal magnitudes, and every pattern
// repeated many times: within twice the rounding of the sum of magnitudes.
void sums(Ctx& c) {
    const std::vector<double> letters{1.0, 0.1, 1e16, 1e-16, 3.0, 1e8};
    const size_t depth = c.tier ? 6 : 4;
    std::vector<int> word;
    auto run = [&](size_t times) {
        ++c.st.states;
        dw::double_kahan k(0.5);
        __float128 want = 0.5, mag = 0.5;
        for (size_t t = 0; t < times; ++t)
            for (int w : word) {
                double x = letters[w / 2];
                if (w % 2) k -= x, want -= x;
                else k += x, want += x;
                mag += x;
                ++c.st.transitions;
            }
        __float128 err = (__float128)(double)k - want;
        if (err < 0) err = -err;
        std::string h;
        for (int w : word) h += (w % 2 ? "-" : "+") + std::to_string(letters[w / 2]) + " ";
        c.hist("sum|" + h + "x" + std::to_string(times));
        if (err > 2.5 * std::numeric_limits<double>::epsilon() / 2 * mag + mag * (__float128)1e-28) c.fail(C19, "sum", "double_kahan", h + " " + std::to_string(times) + " times from 0.5: " + std::to_string((double)k) + " for " + std::to_string((double)want));
        if (k.value() != (double)k || !(k == dw::double_kahan((double)k)) || !(k == (double)k)) c.fail(C19, "sum-value", "double_kahan", h);
    };
    std::function<void(size_t)> go = [&](size_t d) {
        if (c.stop()) return;
        if (!word.empty()) {
            run(1);
            if (word.size() <= 2) run(2000);
            if (word.size() == 3) run(50);
        }
        if (!d) return;
        for (size_t w = 0; w < 2 * letters.size(); ++w) {
            word.push_back(w);
            go(d - 1);
            word.pop_back();
        }
    };
    go(depth);
}

void integers(Ctx& c) {
    auto check = [&](double x, bool want) {
        ++c.st.states;
        ++c.st.transitions;
        c.hist("integer|" + std::to_string(x));
        if (dw::is_integer(x) != want) c.fail(C19, "is_integer", "is_integer", std::to_string(x));
    };
    check(-0.0, true);
    check(std::nan(""), false);
    check(5e-324, false);
    check(-5e-324, false);
    check(std::numeric_limits<double>::min(), false);
    check(std::numeric_limits<double>::max(), true);
    for (L k = -4096; k <= 4096; ++k) {
        check(k, true);
        check(k + 0.5, false);
        check(std::nextafter((double)k, 1e9), false);
        check(std::nextafter((double)k, -1e9), false);
    }
    for (int e = 1; e < 1023; ++e)
        for (int s : {1, -1})
            for (int d : {-1, 0, 1}) {
                double x = s * std::ldexp(1.0, e);
                if (d) x = std::nextafter(x, d * 1e308);
                // above 2**53 every double is an integer; between, only when no fractional bit is left
                bool want = e > 53 || d == 0 || (double)(long long)x == x;
                check(x, want);
            }
}

}  // namespace

void utils_customs(std::vector<Custom>& out, int) {
    // every argument is given to the implementation and its answer judged
    auto reg = [&](const std::string& name, std::function<void(Ctx&)> run) {
        out.push_back({"utils/" + name, C19, [run](Ctx& c) {
                           run(c);
                           c.st.histories = c.st.states;
                       }});
    };
    for (size_t n = 0; n <= 3; ++n) reg("changes" + std::to_string(n), [n](Ctx& c) { dedup(c, n); });
    reg("changes-long", dedup_long);
    reg("ravel", ravels);
    reg("broadcast", broadcasts);
    reg("slices", slice_fits);
    reg("fractions", fractions);
    reg("sums", sums);
    reg("integers", integers);
}

}  // namespace vp
