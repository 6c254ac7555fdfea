// The scenario registry: which models are explored.
#pragma once
#include "model.hpp"

namespace vp {

struct Op {
    std::string name;
    std::function<void(Model&, int, std::vector<int>&)> attach;  // appends handles it created (the last is "the" result)
};

inline std::vector<double> ramp(L n, double a = 1, double b = 1) {
    std::vector<double> v;
    for (L i = 0; i < n; ++i) v.push_back(a + b * ((i * 7) % 5) - (i % 3));
    return v;
}
inline Shape static_shape(Model& m, int h) {
    auto s = m.N(h)->shape();
    return Shape(s.begin(), s.end());
}

#define VP_BINOPS(X)                                                                              \
    X(AddNode, "add", f::add) X(AndNode, "and", f::and_) X(DivideNode, "div", f::div)             \
    X(EqualNode, "eq", f::eq) X(LessEqualNode, "le", f::le) X(MultiplyNode, "mul", f::mul)        \
    X(MaximumNode, "maximum", f::max) X(MinimumNode, "minimum", f::min) X(ModulusNode, "mod", f::mod) \
    X(OrNode, "or", f::or_) X(SubtractNode, "sub", f::sub) X(XorNode, "xor", f::xor_)

std::vector<Op> all_ops();

struct Source {
    std::string name;
    std::function<int(Model&)> make;
    bool quick = true;
};

std::vector<Source> sources();

struct Scenario {
    std::string name;
    std::function<void(Model&)> build;
    int weight = 1;  // 0: multi-decision, 1: wide, 2: composition depth 2, 3: composition depth 3
    bool large = false;
};

void multi_scenarios(std::vector<Scenario>& out);
std::vector<Scenario> registry(int tier);

}  // namespace vp
