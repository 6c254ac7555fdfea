#include "scenarios.hpp"

namespace vp {

std::vector<Source> sources() {
    std::vector<Source> s;
    using O = std::optional<L>;
    O no;
    auto S = [&](std::string n, std::function<int(Model&)> f, bool quick = true) { s.push_back({n, f, quick}); };
    S("bin3", [](Model& m) { return m.binary({3}); }, false);
    S("bin0", [](Model& m) { return m.binary({}); }, false);
    S("bin22", [](Model& m) { return m.binary({2, 2}); });
    S("bin222", [](Model& m) { return m.binary({2, 2, 2}); }, false);
    S("int3", [](Model& m) { return m.integer({3}, -2, 2); });
    S("int0", [](Model& m) { return m.integer({}, -2, 3); }, false);
    S("int1", [](Model& m) { return m.integer({1}, -2, 3); }, false);
    S("int23", [](Model& m) { return m.integer({2, 3}, -1, 2, {-1, 0, 2}); });
    S("int222", [](Model& m) { return m.integer({2, 2, 2}, 0, 1); }, false);
    S("intpos", [](Model& m) { return m.integer({2}, 1, 3); }, false);
    S("intneg", [](Model& m) { return m.integer({2}, -3, -1); }, false);
    S("list3", [](Model& m) { return m.list(3); }, false);
    S("list4", [](Model& m) { return m.list(4); }, false);
    S("list40", [](Model& m) { return m.list(4, 0, 4); });
    S("list413", [](Model& m) { return m.list(4, 1, 3); }, false);
    S("set40", [](Model& m) { return m.set(4, 0, 4); }, false);
    S("set413", [](Model& m) { return m.set(4, 1, 3); }, false);
    S("set22", [](Model& m) { return m.set(4, 2, 2); }, false);
    S("dl42", [](Model& m) { return m.disjoint_lists(4, 2); }, false);
    S("dl33", [](Model& m) { return m.disjoint_lists(3, 3) + 1; }, false);
    S("db32", [](Model& m) { return m.disjoint_bits(3, 2); }, false);
    S("db23", [](Model& m) { return m.disjoint_bits(2, 3) + 2; }, false);
    S("dyn1", [](Model& m) { return m.dyn({}, {0, -1, 1.5}, false, 0, 4); });
    S("dyn1i", [](Model& m) { return m.dyn({}, {0, 1, 2}, true, 0, 4, false); }, false);
    S("dyn2", [](Model& m) { return m.dyn({2}, {0, 1, 2}, true, 0, 3); });
    S("dyn22", [](Model& m) { return m.dyn({2, 2}, {0, 1}, true, 0, 2); }, false);
    // views
    S("bin4::2", [=](Model& m) { return m.basic(m.binary({4}), {SliceSpec{no, no, 2}}); }, false);
    S("list4rev", [=](Model& m) { return m.basic(m.list(4), {SliceSpec{no, no, -1}}); }, false);
    S("int23col", [=](Model& m) { return m.basic(m.integer({2, 3}, -1, 2, {-1, 0, 2}), {SliceSpec{}, 1L}); }, false);
    S("int33sub", [=](Model& m) { return m.basic(m.integer({3, 3}, 0, 2, {0, 2}), {SliceSpec{no, no, 2}, SliceSpec{1, no, no}}); }, false);
    S("int222mid", [=](Model& m) { return m.basic(m.integer({2, 2, 2}, 0, 2, {0, 2}), {SliceSpec{}, 1L, SliceSpec{}}); }, false);
    S("dyn1[1:]", [=](Model& m) { return m.basic(m.dyn({}, {0, 1, 2}, true, 0, 4), {SliceSpec{1, no, no}}); }, false);
    S("dyn1[:2]", [=](Model& m) { return m.basic(m.dyn({}, {0, 1, 2}, true, 0, 4), {SliceSpec{no, 2, no}}); }, false);
    S("list40[:-1]", [=](Model& m) { return m.basic(m.list(4, 0, 4), {SliceSpec{no, -1, no}}); }, false);
    S("list40[-2:]", [=](Model& m) { return m.basic(m.list(4, 0, 4), {SliceSpec{-2, no, no}}); }, false);
    S("list40[::2]", [=](Model& m) { return m.basic(m.list(4, 0, 4), {SliceSpec{no, no, 2}}); }, false);
    S("dyn2[:,1]", [=](Model& m) { return m.basic(m.dyn({2}, {0, 1, 2}, true, 0, 3), {SliceSpec{}, 1L}); }, false);
    S("dyn2[1:,:]", [=](Model& m) { return m.basic(m.dyn({2}, {0, 1, 2}, true, 0, 3), {SliceSpec{1, no, no}, SliceSpec{}}); }, false);
    return s;
}

std::vector<Scenario> registry(int tier) {
    std::vector<Scenario> out;
    auto ops = std::make_shared<std::vector<Op>>(all_ops());
    auto srcs = sources();
    multi_scenarios(out);
    // decisions alone, with every kind of move: deep sequences
    auto D = [&](std::string n, std::function<int(Model&)> f) {
        out.push_back({"dec/" + n, [f](Model& m) { m.lean = 0; f(m); }, -1});
    };
    D("bin3", [](Model& m) { return m.binary({3}); });
    D("bin22", [](Model& m) { return m.binary({2, 2}); });
    D("int2", [](Model& m) { return m.integer({2}, -2, 3); });
    D("int3", [](Model& m) { return m.integer({3}, 1, 3); });
    D("list4", [](Model& m) { return m.list(4); });
    D("list5", [](Model& m) { return m.list(5); });
    D("list1", [](Model& m) { return m.list(1); });
    D("list40", [](Model& m) { return m.list(4, 0, 4); });
    D("list413", [](Model& m) { return m.list(4, 1, 3); });
    D("list402", [](Model& m) { return m.list(4, 0, 2); });
    D("list424", [](Model& m) { return m.list(4, 2, 4); });
    D("set40", [](Model& m) { return m.set(4, 0, 4); });
    D("set413", [](Model& m) { return m.set(4, 1, 3); });
    D("set422", [](Model& m) { return m.set(4, 2, 2); });
    D("db32", [](Model& m) { return m.disjoint_bits(3, 2); });
    D("db23", [](Model& m) { return m.disjoint_bits(2, 3); });
    D("db31", [](Model& m) { return m.disjoint_bits(3, 1); });
    D("dl32", [](Model& m) { return m.disjoint_lists(3, 2); });
    D("dl42", [](Model& m) { return m.disjoint_lists(4, 2); });
    D("dl33", [](Model& m) { return m.disjoint_lists(3, 3); });
    D("dl31", [](Model& m) { return m.disjoint_lists(3, 1); });
    // large arrays and values: the same operators, fewer moves and shorter histories
    auto big = [&](std::string n, size_t keep, std::function<int(Model&)> f) {
        out.push_back({"large/" + n, [f, keep, ops](Model& m) {
                           m.large = true;
                           int h = f(m);
                           m.trim(keep);
                           std::vector<int> o;
                           for (auto& op : *ops) op.attach(m, h, o);
                       }, 1, true});
        out.push_back({"dec/large-" + n, [f](Model& m) { m.large = true; f(m); m.trim(30); }, -1, true});
    };
    size_t k = tier ? 20 : 12;
    big("bin33", k, [](Model& m) { return m.binary({33}); });
    big("bin54", k, [](Model& m) { return m.binary({5, 4}); });
    big("int17", k, [](Model& m) { return m.integer({17}, -2, 2); });
    big("int345", k, [](Model& m) { return m.integer({3, 4, 5}, 0, 3); });
    big("intbig", k, [](Model& m) { return m.integer({5}, -1000000, 2000000, {-1000000, 0, 123456, 1, 2000000}); });
    big("list9", k, [](Model& m) { return m.list(9); });
    big("list12", k, [](Model& m) { return m.list(12, 2, 11); });
    big("set16", k, [](Model& m) { return m.set(16, 0, 16); });
    big("set70", k, [](Model& m) { return m.set(70, 3, 68); });
    big("dl73", k, [](Model& m) { return m.disjoint_lists(7, 3) + 1; });
    big("dl85", k, [](Model& m) { return m.disjoint_lists(8, 5) + 4; });
    big("db93", k, [](Model& m) { return m.disjoint_bits(9, 3) + 1; });
    big("db65", k, [](Model& m) { return m.disjoint_bits(6, 5) + 4; });
    big("dyn20", k, [](Model& m) { return m.dyn({}, {0, -1, 1.5, 3}, false, 0, 20); });
    big("dyn3x12", k, [](Model& m) { return m.dyn({3}, {0, 1, 2}, true, 0, 12); });
    for (auto& s : srcs) {
        auto mk = s.make;
        out.push_back({"wide/" + s.name, [mk, ops](Model& m) {
                           int h = mk(m);
                           if (h < 0) return;
                           std::vector<int> o;
                           for (auto& op : *ops) op.attach(m, h, o);
                       }, 1});
    }
    for (auto& s : srcs) {
        if (tier < 1 && !s.quick) continue;
        auto mk = s.make;
        for (size_t i = 0; i < ops->size(); ++i)
            out.push_back({"comp/" + s.name + "/" + (*ops)[i].name + "#" + std::to_string(i), [mk, ops, i](Model& m) {
                               int h = mk(m);
                               if (h < 0) return;
                               std::vector<int> o, o2;
                               (*ops)[i].attach(m, h, o);
                               if (o.empty()) return;
                               int k = o.back();
                               for (auto& op : *ops) op.attach(m, k, o2);
                           }, 2});
    }
    return out;
}

}  // namespace vp
