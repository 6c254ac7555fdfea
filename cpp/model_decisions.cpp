#include "model.hpp"

namespace vp {

int Model::dec_array(Dec d, ArrayNode* n, std::string desc) {
    int h = add(n, desc, nullptr);
    recs[h].dec = decs.size();
    recs[h].row = 0;
    d.desc = desc;
    d.recs = {h};
    decs.push_back(std::move(d));
    return h;
}

void Model::enumerate(L n, const std::vector<double>& vals, std::vector<Content>& out, size_t cap) {
    std::vector<size_t> k(n, 0);
    if (vals.empty()) return;
    while (true) {
        std::vector<double> row(n);
        for (L i = 0; i < n; ++i) row[i] = vals[k[i]];
        out.push_back({row});
        if (out.size() > cap) throw std::logic_error("domain too large to enumerate");
        L i = n - 1;
        for (; i >= 0; --i) {
            if (++k[i] < vals.size()) break;
            k[i] = 0;
        }
        if (i < 0) break;
    }
}

template <class T>
void Model::number_common(Dec& d, T* n, L size, double lo, double hi) {
    d.node = n;
    d.decision = n;
    d.init = [n](State& s, const Content& c) {
        std::vector<double> v = c[0];
        n->initialize_state(s, std::move(v));
    };
    d.domain = [size, lo, hi](const Content& c) -> std::string {
        if ((L)c[0].size() != size) return "size changed";
        for (double x : c[0])
            if (!(x >= lo && x <= hi) || x != std::floor(x)) return "value outside domain: " + str(c);
        return "";
    };
    Shape shape = d.row_shape;
    d.access = [n, size, lo, hi, shape](State& s, const Content& c) -> std::string {
        for (L i = 0; i < size; ++i)
            if (n->get_value(s, i) != c[0][i]) return "get_value(" + std::to_string(i) + ") of " + str(c);
        if (n->lower_bound() != lo || n->upper_bound() != hi) return "bounds changed";
        for (double x : {lo - 1, lo, hi, hi + 1, lo + 0.5, std::nan("")})
            if (n->is_valid(x) != (x == lo || x == hi)) return "is_valid(" + std::to_string(x) + ")";
        if (shape.size() == 2)
            for (L y = 0; y < shape[0]; ++y)
                for (L x = 0; x < shape[1]; ++x)
                    if (n->linear_index(x, y) != y * shape[1] + x) return "linear_index";
        for (double x : {lo - 1, hi + 1}) {
            if (!size || std::abs(x) > 2e9) continue;
            try {
                n->set_value(s, size - 1, (int)x);
                return "set_value accepted " + std::to_string(x);
            } catch (const std::invalid_argument&) {}
        }
        return "";
    };
    // exchange
    for (L i = 0; i < size; ++i)
        for (L j = 0; j < size; ++j) {
            if (lean && !(j == i + 1 || (i == 0 && j == size - 1 && size > 2) || (i == 0 && j == 0))) continue;
            d.moves.push_back({"exchange(" + std::to_string(i) + "," + std::to_string(j) + ")",
                               [](const Content&) { return true; },
                               [n, i, j, told = told](State& s) { *told = n->exchange(s, i, j); },
                               [i, j](const Content& a, const Content& b) {
                                   Content w = a;
                                   std::swap(w[0][i], w[0][j]);
                                   return expect(b, w);
                               }});
        }
}

int Model::binary(Shape shape) {
    std::vector<ssize_t> sh(shape.begin(), shape.end());
    auto* n = g.emplace_node<dw::BinaryNode>(std::span<const ssize_t>(sh));
    L size = prod(shape);
    Dec d;
    d.row_shape = shape;
    number_common(d, n, size, 0, 1);
    for (L i = 0; i < size; ++i) {
        d.moves.push_back({"flip(" + std::to_string(i) + ")", [](const Content&) { return true; },
                           [n, i](State& s) { n->flip(s, i); },
                           [i](const Content& a, const Content& b) {
                               Content w = a;
                               w[0][i] = 1 - w[0][i];
                               return expect(b, w);
                           }});
        if (lean && i > 0) continue;
        d.moves.push_back({"set(" + std::to_string(i) + ")", [](const Content&) { return true; },
                           [n, i, told = told](State& s) { *told = n->set(s, i); },
                           [i](const Content& a, const Content& b) {
                               Content w = a;
                               w[0][i] = 1;
                               return expect(b, w);
                           }});
        d.moves.push_back({"unset(" + std::to_string(i) + ")", [](const Content&) { return true; },
                           [n, i, told = told](State& s) { *told = n->unset(s, i); },
                           [i](const Content& a, const Content& b) {
                               Content w = a;
                               w[0][i] = 0;
                               return expect(b, w);
                           }});
    }
    if (!large) enumerate(size, {0, 1}, d.all);
    d.starts = {Content{std::vector<double>(size, 0)}};
    if (size > 1) {
        Content c{std::vector<double>(size, 0)};
        for (L i = 0; i < size; i += 2) c[0][i] = 1;
        d.starts.push_back(c);
    } else d.starts.push_back(Content{std::vector<double>(size, 1)});
    return dec_array(std::move(d), n, "bin" + str(shape));
}

int Model::integer(Shape shape, int lb, int ub, std::vector<double> values) {
    std::vector<ssize_t> sh(shape.begin(), shape.end());
    auto* n = g.emplace_node<dw::IntegerNode>(std::span<const ssize_t>(sh), lb, ub);
    L size = prod(shape);
    Dec d;
    d.row_shape = shape;
    number_common(d, n, size, lb, ub);
    if (values.empty())
        for (int x = lb; x <= ub; ++x) values.push_back(x);
    for (L i = 0; i < size; ++i)
        for (size_t k = 0; k < values.size(); ++k) {
            if (lean && size > 2 && i > 0 && values.size() > 3 && (k + i) % 2) continue;
            double x = values[k];
            d.moves.push_back({"set_value(" + std::to_string(i) + "," + std::to_string((int)x) + ")",
                               [](const Content&) { return true; },
                               [n, i, x, told = told](State& s) { *told = n->set_value(s, i, (int)x); },
                               [i, x](const Content& a, const Content& b) {
                                   Content w = a;
                                   w[0][i] = x;
                                   return expect(b, w);
                               }});
        }
    if (std::pow((double)values.size(), (double)size) <= 5000) enumerate(size, values, d.all);
    Content c{std::vector<double>(size)}, e{std::vector<double>(size)};
    for (L i = 0; i < size; ++i) {
        c[0][i] = values[i % values.size()];
        e[0][i] = values[(values.size() * 7 - 1 - 2 * i + values.size() * size) % values.size()];
    }
    d.starts = {c, e};
    return dec_array(std::move(d), n, "int" + str(shape) + "[" + std::to_string(lb) + ".." + std::to_string(ub) + "]");
}

std::string Model::distinct(const std::vector<double>& v, L n) {
    std::set<double> s;
    for (double x : v) {
        if (x != std::floor(x) || x < 0 || x >= n) return "element outside range(n): " + str(v);
        if (!s.insert(x).second) return "repeated element: " + str(v);
    }
    return "";
}

template <class T>
Dec Model::collection(T* n, L N, L mn, L mx) {
    Dec d;
    d.node = n;
    d.decision = n;
    d.dynamic = mn != mx;
    d.init = [n](State& s, const Content& c) { n->initialize_state(s, c[0]); };
    d.domain = [N, mn, mx](const Content& c) -> std::string {
        L sz = c[0].size();
        if (sz < mn || sz > mx) return "size outside range: " + str(c);
        return distinct(c[0], N);
    };
    for (L i = 0; i < N; ++i)
        for (L j = 0; j < N; ++j) {
            if (lean && !(j == i + 1 || (i == 0 && j == N - 1 && N > 2) || (i == N - 1 && j == 1 && N > 3))) continue;
            d.moves.push_back({"exchange(" + std::to_string(i) + "," + std::to_string(j) + ")",
                               [](const Content&) { return true; },
                               [n, i, j](State& s) { n->exchange(s, i, j); },
                               [i, j, N](const Content& a, const Content& b) -> std::string {
                                   L sz = a[0].size();
                                   if (i < sz && j < sz) {
                                       Content w = a;
                                       std::swap(w[0][i], w[0][j]);
                                       return expect(b, w);
                                   }
                                   if (i >= sz && j >= sz) return expect(b, a);
                                   L vis = std::min(i, j);
                                   if ((L)b[0].size() != sz) return "size changed by exchange";
                                   for (L k = 0; k < sz; ++k) {
                                       if (k != vis && b[0][k] != a[0][k]) return "untouched position changed: " + str(a) + "->" + str(b);
                                   }
                                   for (double x : a[0])
                                       if (x == b[0][vis]) return "exchange with a hidden position brought in a visible element";
                                   return "";
                               }});
            if (i < mx && j < mx)
                d.moves.push_back({"rotate(" + std::to_string(i) + "," + std::to_string(j) + ")",
                                   [i, j](const Content& a) { return i < (L)a[0].size() && j < (L)a[0].size(); },
                                   [n, i, j](State& s) { n->rotate(s, i, j); },
                                   [i, j](const Content& a, const Content& b) {
                                       Content w = a;
                                       double x = w[0][j];
                                       w[0].erase(w[0].begin() + j);
                                       w[0].insert(w[0].begin() + i, x);
                                       return expect(b, w);
                                   }});
        }
    if (d.dynamic) {
        d.moves.push_back({"grow", [mx](const Content& a) { return (L)a[0].size() < mx; },
                           [n](State& s) { n->grow(s); },
                           [](const Content& a, const Content& b) -> std::string {
                               if (b[0].size() != a[0].size() + 1) return "grow must add one element";
                               for (size_t k = 0; k < a[0].size(); ++k)
                                   if (a[0][k] != b[0][k]) return "grow changed an existing element";
                               return "";
                           }});
        d.moves.push_back({"shrink", [mn](const Content& a) { return (L)a[0].size() > mn; },
                           [n](State& s) { n->shrink(s); },
                           [](const Content& a, const Content& b) {
                               Content w = a;
                               w[0].pop_back();
                               return expect(b, w);
                           }});
    }
    // all ordered selections
    std::vector<double> cur;
    std::vector<bool> used(N, false);
    std::function<void()> rec = [&]() {
        if ((L)cur.size() >= mn) d.all.push_back({cur});
        if ((L)cur.size() == mx) return;
        for (L x = 0; x < N; ++x)
            if (!used[x]) {
                used[x] = true;
                cur.push_back(x);
                rec();
                cur.pop_back();
                used[x] = false;
            }
    };
    if (!large) rec();
    std::vector<double> a, b;
    for (L i = 0; i < mn; ++i) a.push_back(i);
    L mid = d.dynamic ? std::min(mx, std::max(mn, (mn + mx + 1) / 2)) : mx;
    for (L i = 0; i < mid; ++i) b.push_back((i * 2 + 1) % N == (double)0 && N % 2 == 0 ? 0 : N - 1 - i);
    d.starts = {{b}, {a}};
    if (!d.dynamic) d.starts = {{a}, {b}};
    return d;
}

int Model::list(L n) {
    auto* p = g.emplace_node<dw::ListNode>(n);
    return dec_array(collection(p, n, n, n), p, "list(" + std::to_string(n) + ")");
}

int Model::list(L n, L mn, L mx) {
    auto* p = g.emplace_node<dw::ListNode>(n, mn, mx);
    return dec_array(collection(p, n, mn, mx), p, "list(" + std::to_string(n) + "," + std::to_string(mn) + "," + std::to_string(mx) + ")");
}

int Model::set(L n, L mn, L mx) {
    auto* p = g.emplace_node<dw::SetNode>(n, mn, mx);
    return dec_array(collection(p, n, mn, mx), p, "set(" + std::to_string(n) + "," + std::to_string(mn) + "," + std::to_string(mx) + ")");
}

int Model::disjoint_bits(L n, L k) {
    auto* p = g.emplace_node<dw::DisjointBitSetsNode>(n, k);
    Dec d;
    d.node = p;
    d.decision = p;
    d.desc = "dbits(" + std::to_string(n) + "," + std::to_string(k) + ")";
    int first = -1;
    for (L i = 0; i < k; ++i) {
        auto* q = g.emplace_node<dw::DisjointBitSetNode>(p);
        int h = add(q, d.desc + "#" + std::to_string(i), nullptr);
        recs[h].dec = decs.size();
        recs[h].row = i;
        if (first < 0) first = h;
        d.recs.push_back(h);
    }
    d.row_shape = {n};
    d.init = [p](State& s, const Content& c) { p->initialize_state(s, c); };
    d.domain = [n, k](const Content& c) -> std::string {
        for (L e = 0; e < n; ++e) {
            double t = 0;
            for (L i = 0; i < k; ++i) {
                if ((L)c[i].size() != n) return "size changed";
                if (c[i][e] != 0 && c[i][e] != 1) return "not binary " + str(c);
                t += c[i][e];
            }
            if (t != 1) return "not a partition " + str(c);
        }
        return "";
    };
    d.access = [p, n, k](State& s, const Content& c) -> std::string {
        if (p->primary_set_size() != n || p->num_disjoint_sets() != k) return "sizes";
        for (L e = 0; e < n; ++e) {
            L i = p->get_containing_set_index(s, e);
            if (i < 0 || i >= k || c[i][e] != 1) return "get_containing_set_index(" + std::to_string(e) + ") of " + str(c) + " is " + std::to_string(i);
        }
        return "";
    };
    for (L i = 0; i < k; ++i)
        for (L j = 0; j < k; ++j) {
            if (lean && i == j) continue;
            for (L e = 0; e < n; ++e)
                d.moves.push_back({"swap_between_sets(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(e) + ")",
                                   [](const Content&) { return true; },
                                   [p, i, j, e](State& s) { p->swap_between_sets(s, i, j, e); },
                                   [i, j, e](const Content& a, const Content& b) {
                                       Content w = a;
                                       std::swap(w[i][e], w[j][e]);
                                       return expect(b, w);
                                   }});
        }
    L tot = 1;
    for (L e = 0; e < n; ++e) tot *= k;
    for (L m = 0; m < tot; m += large ? tot - 1 : 1) {
        Content c(k, std::vector<double>(n, 0));
        L q = m;
        for (L e = 0; e < n; ++e) {
            c[q % k][e] = 1;
            q /= k;
        }
        d.all.push_back(c);
    }
    d.starts = {d.all[0], d.all[d.all.size() * 2 / 3]};
    if (large) {
        for (L e = 0; e < n; ++e)
            for (L i = 0; i < k; ++i) d.starts[1][i][e] = e % k == i;
        d.all.clear();
    }
    decs.push_back(std::move(d));
    return first;
}

int Model::disjoint_lists(L n, L k) {
    auto* p = g.emplace_node<dw::DisjointListsNode>(n, k);
    Dec d;
    d.node = p;
    d.decision = p;
    d.dynamic = true;
    d.desc = "dlists(" + std::to_string(n) + "," + std::to_string(k) + ")";
    int first = -1;
    for (L i = 0; i < k; ++i) {
        auto* q = g.emplace_node<dw::DisjointListNode>(p);
        int h = add(q, d.desc + "#" + std::to_string(i), nullptr);
        recs[h].dec = decs.size();
        recs[h].row = i;
        if (first < 0) first = h;
        d.recs.push_back(h);
    }
    d.init = [p](State& s, const Content& c) { p->initialize_state(s, c); };
    d.domain = [n](const Content& c) -> std::string {
        std::vector<double> v;
        for (auto& r : c) v.insert(v.end(), r.begin(), r.end());
        if ((L)v.size() != n) return "not a partition " + str(c);
        return distinct(v, n);
    };
    d.access = [p, n, k](State& s, const Content& c) -> std::string {
        if (p->primary_set_size() != n || p->num_disjoint_lists() != k) return "sizes";
        for (L i = 0; i < k; ++i)
            if (p->get_disjoint_list_size(s, i) != (L)c[i].size()) return "get_disjoint_list_size(" + std::to_string(i) + ") of " + str(c);
        return "";
    };
    auto nm = [](std::string s, std::vector<L> a) {
        s += "(";
        for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + std::to_string(a[i]);
        return s + ")";
    };
    for (L l = 0; l < k; ++l)
        for (L i = 0; i < n; ++i)
            for (L j = 0; j < n; ++j) {
                if (lean && !(j == i + 1 || (i == n - 1 && j == 0))) continue;
                auto en = [l, i, j](const Content& a) { return i < (L)a[l].size() && j < (L)a[l].size(); };
                d.moves.push_back({nm("rotate_in_list", {l, i, j}), en,
                                   [p, l, i, j](State& s) { p->rotate_in_list(s, l, i, j); },
                                   [l, i, j](const Content& a, const Content& b) {
                                       Content w = a;
                                       double x = w[l][j];
                                       w[l].erase(w[l].begin() + j);
                                       w[l].insert(w[l].begin() + i, x);
                                       return expect(b, w);
                                   }});
                if (lean && i == n - 1) continue;
                d.moves.push_back({nm("swap_in_list", {l, i, j}), en,
                                   [p, l, i, j](State& s) { p->swap_in_list(s, l, i, j); },
                                   [l, i, j](const Content& a, const Content& b) {
                                       Content w = a;
                                       std::swap(w[l][i], w[l][j]);
                                       return expect(b, w);
                                   }});
            }
    for (L l = 0; l < k; ++l)
        for (L m = 0; m < k; ++m)
            for (L i = 0; i < n; ++i)
                for (L j = 0; j <= n; ++j) {
                    if (l == m && lean) continue;
                    if (lean && (i + j) % 2 && i != j - 1) continue;
                    d.moves.push_back({nm("pop_to_list", {l, i, m, j}),
                                       [l, m, i, j](const Content& a) {
                                           return i < (L)a[l].size() && j <= (L)a[m].size() - (l == m ? 1 : 0);
                                       },
                                       [p, l, m, i, j](State& s) { p->pop_to_list(s, l, i, m, j); },
                                       [l, m, i, j](const Content& a, const Content& b) {
                                           Content w = a;
                                           double x = w[l][i];
                                           w[l].erase(w[l].begin() + i);
                                           w[m].insert(w[m].begin() + j, x);
                                           return expect(b, w);
                                       }});
                }
    // wholesale reassignment through set_state on every list: rotate the lists, merge, split
    auto wholesale = [&](std::string name, std::function<Content(const Content&)> f) {
        d.moves.push_back({name, [](const Content&) { return true; },
                           [this, p, k, f, first](State& s) {
                               Content c;
                               for (L i = 0; i < k; ++i) c.push_back(read_node(recs[first + i].node, s).v);
                               Content w = f(c);
                               for (L i = 0; i < k; ++i) p->set_state(s, i, std::span<const double>(w[i]));
                           },
                           [f](const Content& a, const Content& b) { return expect(b, f(a)); }});
    };
    wholesale("set_state_rotated", [](const Content& c) {
        Content w = c;
        std::rotate(w.begin(), w.begin() + 1, w.end());
        return w;
    });
    wholesale("set_state_merged_reversed", [](const Content& c) {
        Content w(c.size());
        for (auto& r : c) w.back().insert(w.back().end(), r.begin(), r.end());
        std::reverse(w.back().begin(), w.back().end());
        return w;
    });
    // enumerate: permutations x cut points
    std::vector<double> perm(n);
    std::iota(perm.begin(), perm.end(), 0);
    if (!large) do {
        std::function<void(L, L, Content)> cut = [&](L list, L pos, Content c) {
            if (list == k - 1) {
                c.push_back(std::vector<double>(perm.begin() + pos, perm.end()));
                d.all.push_back(c);
                return;
            }
            for (L e = pos; e <= n; ++e) {
                Content c2 = c;
                c2.push_back(std::vector<double>(perm.begin() + pos, perm.begin() + e));
                cut(list + 1, e, c2);
            }
        };
        cut(0, 0, {});
    } while (std::next_permutation(perm.begin(), perm.end()));
    Content a(k), b(k);
    for (L i = 0; i < n; ++i) a[i % k].push_back(n - 1 - i);
    for (L i = 0; i < n; ++i) b[0].push_back(i);
    d.starts = {a, b};
    decs.push_back(std::move(d));
    return first;
}

void Model::trim(size_t keep) {
    Dec& d = decs.back();
    std::vector<Move> special, rest;
    for (auto& mv : d.moves) (mv.name.find('(') == std::string::npos ? special : rest).push_back(mv);
    std::vector<Move> out = special;
    size_t step = std::max<size_t>(1, (rest.size() + keep - 1) / keep);
    for (size_t i = 0; i < rest.size(); i += step) out.push_back(rest[i]);
    if (!rest.empty() && (rest.size() - 1) % step) out.push_back(rest.back());
    for (auto& mv : special) {
        bool up = mv.name.rfind("grow", 0) == 0;
        if (!up && mv.name != "shrink") continue;
        Move b = mv;
        b.name = mv.name + "*5";
        L step_size = std::max<L>(1, prod(d.row_shape));
        auto en = mv.enabled;
        b.enabled = [en, up, step_size](const Content& a) {
            Content x = a;
            for (int i = 0; i < 5; ++i) {
                if (!en(x)) return false;
                if (up) x[0].resize(x[0].size() + step_size);
                else x[0].resize(x[0].size() - step_size);
            }
            return true;
        };
        auto ap = mv.apply;
        b.apply = [ap](State& s) { for (int i = 0; i < 5; ++i) ap(s); };
        b.post = [up, step_size](const Content& a, const Content& b) -> std::string {
            if ((L)b[0].size() != (L)a[0].size() + (up ? 5 : -5) * step_size) return "wrong size after growing or shrinking five times";
            for (size_t i = 0; i < std::min(a[0].size(), b[0].size()); ++i)
                if (a[0][i] != b[0][i]) return "growing or shrinking changed another element";
            return "";
        };
        out.push_back(b);
    }
    d.moves = out;
}

int Model::dyn(Shape row, std::vector<double> values, bool integral, L minrows, L maxrows, bool with_sizeinfo) {
    double lo = *std::min_element(values.begin(), values.end()), hi = *std::max_element(values.begin(), values.end());
    L w = prod(row);
    dw::DynamicArrayTestingNode* n;
    std::optional<ssize_t> mn, mx;
    if (with_sizeinfo) mn = minrows * w, mx = maxrows * w;
    if (row.size() == 0)
        n = g.emplace_node<dw::DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1}, lo, hi, integral, mn, mx);
    else if (row.size() == 1)
        n = g.emplace_node<dw::DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, row[0]}, lo, hi, integral, mn, mx);
    else
        n = g.emplace_node<dw::DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, row[0], row[1]}, lo, hi, integral, mn, mx);
    Dec d;
    d.node = n;
    d.decision = n;
    d.dynamic = true;
    d.row_shape = row;
    d.init = [n](State& s, const Content& c) { n->initialize_state(s, std::span<const double>(c[0])); };
    d.domain = [=](const Content&) -> std::string { return ""; };
    for (size_t k = 0; k < values.size(); ++k) {
        if (lean && k >= 2) break;
        std::vector<double> vals(w);
        for (L i = 0; i < w; ++i) vals[i] = values[(k * 2 + 1 + i) % values.size()];
        d.moves.push_back({"grow" + str(vals), [=](const Content& a) { return (L)a[0].size() < maxrows * w; },
                           [n, vals](State& s) { n->grow(s, std::span<const double>(vals)); },
                           [vals](const Content& a, const Content& b) {
                               Content x = a;
                               x[0].insert(x[0].end(), vals.begin(), vals.end());
                               return expect(b, x);
                           }});
    }
    d.moves.push_back({"shrink", [=](const Content& a) { return (L)a[0].size() > minrows * w; },
                       [n](State& s) { n->shrink(s); },
                       [w](const Content& a, const Content& b) {
                           Content x = a;
                           x[0].resize(x[0].size() - w);
                           return expect(b, x);
                       }});
    for (L i = 0; i < maxrows * w; ++i)
        for (size_t k = 0; k < values.size(); ++k) {
            if (lean && ((L)k + i) % 2 && values.size() > 2) continue;
            double x = values[k];
            d.moves.push_back({"set(" + std::to_string(i) + "," + str(std::vector<double>{x}) + ")",
                               [i](const Content& a) { return i < (L)a[0].size(); },
                               [n, i, x](State& s) { n->set(s, i, x); },
                               [i, x](const Content& a, const Content& b) {
                                   Content y = a;
                                   y[0][i] = x;
                                   return expect(b, y);
                               }});
        }
    auto mk = [&](L rows, L shift) {
        Content c{{}};
        for (L i = 0; i < rows * w; ++i) c[0].push_back(values[(i + shift) % values.size()]);
        return c;
    };
    d.starts = {mk((minrows + maxrows + 1) / 2, 0), mk(minrows, 1)};
    for (L r = minrows; r <= maxrows; ++r) {
        std::vector<Content> o;
        if (std::pow((double)values.size(), (double)(r * w)) <= 3000) enumerate(r * w, values, o);
        for (auto& c : o) d.all.push_back(c);
    }
    return dec_array(std::move(d), n, "dyn(-1" + (row.empty() ? "" : "," + std::to_string(row[0])) + (row.size() > 1 ? "," + std::to_string(row[1]) : "") + ")");
}

}  // namespace vp
